package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// A concurrent scenario lets several goroutines operate on one engine. A
// controller decides which operation is started, cancelled or let go next;
// handlers stop ("park") at scripted points so that other operations arrive
// while one is in progress.

type concOp struct {
	Op   string `json:"op"`   // dispatch, tick, reset
	I    string `json:"i"`    // instance
	Park []int  `json:"park"` // handler invocations (1..) of this operation that park; a reset function, if it is a reset
	End  string `json:"end"`  // "", err, panic
	At   int    `json:"at"`   // the invocation that ends this way
	Ctx  string `json:"ctx"`  // "", pre
}

type concStep struct {
	Do string `json:"do"` // start, cancel, go, settle
	N  int    `json:"n"`
}

type concScenario struct {
	ID    string     `json:"id"`
	Ops   []concOp   `json:"ops"`
	Steps []concStep `json:"steps"`
}

type concOpState struct {
	cfg      concOp
	n        int
	invs     int
	started  bool
	canceled bool
	ran      bool
	parked   chan struct{} // non-nil while parked; closed to continue
	done     chan struct{}
	cancel   context.CancelFunc
}

type concRun struct {
	*rec
	sc    *concScenario
	m     sync.Mutex
	ops   []*concOpState
	eng   *engine.Engine
	free  bool // no operation parks any more
	seq   int
	stuck bool
	rcur  *concOpState // the reset whose functions are being called
}

type concKey struct{}

func (r *concRun) opOf(ctx context.Context, key string) *concOpState {
	if ctx != nil {
		if o, ok := ctx.Value(concKey{}).(*concOpState); ok {
			return o
		}
	}
	s, _, _ := strings.Cut(strings.TrimPrefix(key, "n"), ".")
	n, err := strconv.Atoi(s)
	if err != nil || n < 1 || n > len(r.ops) {
		panic("harness: bad key " + key)
	}
	return r.ops[n-1]
}

func (r *concRun) key(o *concOpState) string {
	r.m.Lock()
	defer r.m.Unlock()
	r.seq++
	return fmt.Sprintf("n%d.%d", o.n, r.seq)
}

type concPanic struct{}

// invoke brackets the body of a handler.
func (r *concRun) invoke(ctx context.Context, h, m, i string, root []string, body func(o *concOpState) []string) error {
	o := r.opOf(ctx, m)
	r.add(ev{"e": "cb", "n": o.n, "h": h, "m": m, "i": i, "root": nn(root)})
	r.m.Lock()
	o.ran = true
	o.invs++
	inv := o.invs
	var ch chan struct{}
	for _, p := range o.cfg.Park {
		if p == inv && !r.free {
			ch = make(chan struct{})
			o.parked = ch
		}
	}
	r.m.Unlock()
	if ch != nil {
		<-ch
	}
	rec := nn(body(o))
	e := ev{"e": "cbx", "n": o.n, "h": h, "m": m, "i": i, "res": "ok", "rec": rec}
	if inv == o.cfg.At {
		switch o.cfg.End {
		case "panic":
			e["res"] = "panic"
			r.add(e)
			panic(concPanic{})
		case "err":
			if ctx != nil {
				e["res"] = "err"
				r.add(e)
				return errors.New("<failed>")
			}
		}
	}
	r.add(e)
	return nil
}

// resetter is one of the functions that a reset calls. It cannot tell which
// reset calls it, any that has not called its functions yet will do.
func (r *concRun) resetter(k int) {
	r.add(ev{"e": "rcb", "k": k})
	r.m.Lock()
	if k == 1 {
		r.rcur = nil
		for _, o := range r.ops {
			if o.cfg.Op == "reset" && o.started && !o.ran {
				r.rcur, o.ran = o, true
				break
			}
		}
	}
	o := r.rcur
	var ch chan struct{}
	if o != nil && !r.free {
		for _, p := range o.cfg.Park {
			if p == k {
				ch = make(chan struct{})
				o.parked = ch
			}
		}
	}
	r.m.Unlock()
	if ch != nil {
		<-ch
	}
	if o != nil && o.cfg.End == "panic" && o.cfg.At == k {
		r.add(ev{"e": "rcbx", "k": k, "res": "panic"})
		panic(concPanic{})
	}
	r.add(ev{"e": "rcbx", "k": k, "res": "ok"})
}

// concObserver records the IDs of the messages that an operation delivers.
func (r *concRun) observer(o *concOpState) engine.OperationOption {
	return engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
		if f, ok := f.(fact.DispatchBegun); ok {
			m := keyOf(f.Envelope.Message)
			r.add(ev{"e": "db", "n": o.n, "m": m, "id": f.Envelope.MessageID, "root": m == fmt.Sprintf("n%d.0", o.n)})
		}
	}))
}

type concApp struct{ r *concRun }

func (a concApp) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("app", handlerKey(999))
	c.RegisterAggregate(&concAgg{a.r})
	c.RegisterProcess(&concProc{a.r})
	c.RegisterIntegration(&concInt{a.r})
	c.RegisterProjection(&concProj{r: a.r, n: "p1", key: handlerKey(4)})
	c.RegisterProjection(&concProj{r: a.r, n: "p2", key: handlerKey(5)})
}

type concRoot struct{ applied []string }

func (c *concRoot) ApplyEvent(e dogma.Event) { c.applied = append(c.applied, keyOf(e)) }

type concAgg struct{ r *concRun }

func (h *concAgg) Configure(c dogma.AggregateConfigurer) {
	c.Identity("agg", handlerKey(1))
	c.Routes(dogma.HandlesCommand[Cmd[x0]](), dogma.HandlesCommand[Cmd[x2]](), dogma.RecordsEvent[Ev[x0]]())
}
func (h *concAgg) New() dogma.AggregateRoot                      { return &concRoot{} }
func (h *concAgg) RouteCommandToInstance(c dogma.Command) string { return fieldOf(c, "Body") }
func (h *concAgg) HandleCommand(root dogma.AggregateRoot, sc dogma.AggregateCommandScope, c dogma.Command) {
	rt := root.(*concRoot)
	_ = h.r.invoke(nil, "agg", keyOf(c), sc.InstanceID(), append([]string{}, rt.applied...), func(o *concOpState) []string {
		k := h.r.key(o)
		sc.RecordEvent(Ev[x0]{Key: k, Body: sc.InstanceID()})
		return []string{k}
	})
}

type concProcRoot struct{}

type concProc struct{ r *concRun }

func (h *concProc) Configure(c dogma.ProcessConfigurer) {
	c.Identity("proc", handlerKey(2))
	c.Routes(dogma.HandlesEvent[Ev[x0]](), dogma.ExecutesCommand[Cmd[x1]](), dogma.ExecutesCommand[Cmd[x2]](), dogma.SchedulesTimeout[Tm[x0]]())
}
func (h *concProc) New() dogma.ProcessRoot { return &concProcRoot{} }
func (h *concProc) RouteEventToInstance(_ context.Context, e dogma.Event) (string, bool, error) {
	return fieldOf(e, "Body"), true, nil
}
func (h *concProc) HandleEvent(ctx context.Context, _ dogma.ProcessRoot, sc dogma.ProcessEventScope, e dogma.Event) error {
	return h.r.invoke(ctx, "proc", keyOf(e), sc.InstanceID(), nil, func(o *concOpState) []string {
		sc.ExecuteCommand(Cmd[x1]{Key: h.r.key(o), Body: sc.InstanceID()})
		if fieldOf(e, "Bad") == "" && o.cfg.Op == "dispatch" {
			sc.ScheduleTimeout(Tm[x0]{Key: h.r.key(o), Body: sc.InstanceID()}, base.Add(time.Second))
		}
		return nil
	})
}
func (h *concProc) HandleTimeout(ctx context.Context, _ dogma.ProcessRoot, sc dogma.ProcessTimeoutScope, t dogma.Timeout) error {
	return h.r.invoke(ctx, "proc", keyOf(t), sc.InstanceID(), nil, func(o *concOpState) []string {
		sc.ExecuteCommand(Cmd[x2]{Key: h.r.key(o), Body: sc.InstanceID()})
		return nil
	})
}

type concInt struct{ r *concRun }

func (h *concInt) Configure(c dogma.IntegrationConfigurer) {
	c.Identity("int", handlerKey(3))
	c.Routes(dogma.HandlesCommand[Cmd[x1]](), dogma.RecordsEvent[Ev[x1]]())
}
func (h *concInt) HandleCommand(ctx context.Context, sc dogma.IntegrationCommandScope, c dogma.Command) error {
	return h.r.invoke(ctx, "int", keyOf(c), "", nil, func(o *concOpState) []string {
		sc.RecordEvent(Ev[x1]{Key: h.r.key(o)})
		return nil
	})
}

type concProj struct {
	r      *concRun
	n, key string
}

func (h *concProj) Configure(c dogma.ProjectionConfigurer) {
	c.Identity(h.n, h.key)
	c.Routes(dogma.HandlesEvent[Ev[x0]](), dogma.HandlesEvent[Ev[x1]]())
}
func (h *concProj) ResourceVersion(context.Context, []byte) ([]byte, error) { return nil, nil }
func (h *concProj) CloseResource(context.Context, []byte) error             { return nil }
func (h *concProj) HandleEvent(ctx context.Context, _, _, _ []byte, _ dogma.ProjectionEventScope, e dogma.Event) (bool, error) {
	err := h.r.invoke(ctx, h.n, keyOf(e), "", nil, func(*concOpState) []string { return nil })
	return err == nil, err
}
func (h *concProj) Compact(ctx context.Context, _ dogma.ProjectionCompactScope) error {
	if _, ok := ctx.Value(concKey{}).(*concOpState); !ok {
		return nil // cannot be attributed to an operation
	}
	return h.r.invoke(ctx, h.n, "", "", nil, func(*concOpState) []string { return nil })
}

func (r *concRun) start(o *concOpState) {
	ctx, cancel := withCancel(context.Background())
	ctx = context.WithValue(ctx, concKey{}, o)
	o.cancel = cancel
	o.started = true
	o.done = make(chan struct{})
	if o.cfg.Ctx == "pre" {
		cancel()
		o.canceled = true
	}
	m := ""
	if o.cfg.Op == "dispatch" {
		m = fmt.Sprintf("n%d.0", o.n)
	}
	r.add(ev{"e": "go", "n": o.n, "op": o.cfg.Op, "m": m, "pre": o.cfg.Ctx == "pre"})
	go func() {
		defer close(o.done)
		e := ev{"e": "ret", "n": o.n, "op": o.cfg.Op, "res": "ok", "can": false}
		defer func() {
			if v := recover(); v != nil {
				e["res"] = "panic"
				if _, ok := v.(overflow); ok {
					return
				}
			}
			r.add(e)
		}()
		var err error
		switch o.cfg.Op {
		case "dispatch":
			err = r.eng.Dispatch(ctx, Cmd[x0]{Key: m, Body: o.cfg.I}, engine.WithCurrentTime(base), r.observer(o))
		case "tick":
			err = r.eng.Tick(ctx, engine.WithCurrentTime(base.Add(time.Duration(o.n)*100*time.Hour)), r.observer(o))
		case "reset":
			r.eng.Reset()
		}
		if err != nil {
			e["res"] = "err"
			e["can"] = errors.Is(err, context.Canceled)
		}
	}()
}

// settle gives the other goroutines the opportunity to proceed.
func (r *concRun) settle() {
	for i := 0; i < 4; i++ {
		time.Sleep(150 * time.Microsecond)
	}
}

func (r *concRun) await(o *concOpState) bool {
	t := time.NewTimer(patience)
	defer t.Stop()
	select {
	case <-o.done:
		return true
	case <-t.C:
		stuckRuns.Add(1)
		r.add(ev{"e": "stuck", "n": o.n})
		r.stuck = true
		return false
	}
}

// holder returns the operation that is parked, if any.
func (r *concRun) holder() *concOpState {
	r.m.Lock()
	defer r.m.Unlock()
	for _, o := range r.ops {
		if o.parked != nil {
			return o
		}
	}
	return nil
}

func (r *concRun) release(o *concOpState) {
	r.m.Lock()
	ch := o.parked
	o.parked = nil
	r.m.Unlock()
	if ch != nil {
		close(ch)
	}
}

func (r *concRun) execute() {
	defer r.guard()
	r.eng = engine.MustNew(
		configkit.FromApplication(concApp{r}),
		engine.WithResetter(func() { r.resetter(1) }),
		engine.WithResetter(func() { r.resetter(2) }),
	)
	for i, o := range r.sc.Ops {
		r.ops = append(r.ops, &concOpState{cfg: o, n: i + 1})
	}
	for _, s := range r.sc.Steps {
		o := r.ops[s.N-1]
		switch s.Do {
		case "start":
			if !o.started {
				r.start(o)
			}
		case "settle":
			r.settle()
		case "go":
			r.release(o)
		case "cancel":
			// Cancel an operation that is waiting for another one, and see it return.
			h := r.holder()
			r.m.Lock()
			ran := o.ran
			r.m.Unlock()
			if h != nil && h != o && o.started && !o.canceled && !ran && o.cfg.Op != "reset" {
				o.canceled = true
				r.add(ev{"e": "cancel", "n": o.n})
				o.cancel()
				if !r.await(o) {
					return
				}
			}
		}
	}
	r.m.Lock()
	r.free = true
	r.m.Unlock()
	for _, o := range r.ops {
		if !o.started {
			r.start(o)
		}
	}
	for _, o := range r.ops {
		r.release(o)
	}
	for _, o := range r.ops {
		if !r.await(o) {
			return
		}
	}
	for _, o := range r.ops {
		o.cancel()
	}
	r.add(ev{"e": "end"})
}

func genConc(prof string, seed uint64, idx int) *concScenario {
	q := newRng(seed, "conc", prof, strconv.Itoa(idx))
	s := &concScenario{ID: fmt.Sprintf("conc-%s/%d/%d", prof, seed, idx)}
	n := 2 + q.IntN(6)
	if q.p(0.1) {
		n += q.IntN(8)
	}
	insts := []string{"a", "b"}
	for i := 0; i < n; i++ {
		o := concOp{Op: "dispatch", I: pick(q, insts)}
		switch {
		case q.p(0.25):
			o.Op = "tick"
		case q.p(0.2):
			o.Op = "reset"
		}
		if o.Op != "reset" {
			if q.p(0.55) {
				for k := 1; k <= 6; k++ {
					if q.p(0.35) {
						o.Park = append(o.Park, k)
					}
				}
			}
			if q.p(0.2) {
				o.End, o.At = "panic", 1+q.IntN(5)
			} else if q.p(0.1) {
				o.End, o.At = "err", 1+q.IntN(5)
			}
			if q.p(0.05) {
				o.Ctx = "pre"
			}
		} else {
			if q.p(0.4) {
				o.Park = append(o.Park, 1+q.IntN(2))
			}
			if q.p(0.1) {
				o.End, o.At = "panic", 1+q.IntN(2)
			}
		}
		s.Ops = append(s.Ops, o)
	}
	next := 1
	for i := 0; i < 4*n; i++ {
		switch x := q.Float64(); {
		case next <= n && (next == 1 || x < 0.35):
			s.Steps = append(s.Steps, concStep{"start", next})
			if q.p(0.6) {
				s.Steps = append(s.Steps, concStep{"settle", next})
			}
			next++
		case x < 0.5:
			s.Steps = append(s.Steps, concStep{"cancel", 1 + q.IntN(n)})
		case x < 0.85:
			s.Steps = append(s.Steps, concStep{"go", 1 + q.IntN(n)})
		default:
			s.Steps = append(s.Steps, concStep{"settle", 1})
		}
	}
	return s
}

func concJob(s *concScenario) job {
	return job{s.ID, func(sink io.Writer) ([]ev, bool) {
		r := &concRun{rec: newRec(base), sc: s}
		r.sink = sink
		r.execute()
		return r.close(), r.over
	}, s}
}
