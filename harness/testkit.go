package main

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/location"
)

// A test scenario is a program that uses the test framework: an application, a
// test, and the steps of the test.

type tScenario struct {
	ID    string             `json:"id"`
	App   appCfg             `json:"app"`
	Begin tBegin             `json:"begin"`
	Stop  string             `json:"stop"` // exit: failing stops the goroutine; cont: it does not
	Steps []*tStep           `json:"steps"`
	Beh   map[string]*script `json:"beh,omitempty"`

	lazy func(key, handler string) *script
}

type tBegin struct {
	Start []int64 `json:"start,omitempty"` // absent: no start time is given
	TZ    int     `json:"tz,omitempty"`
	Opts  []any   `json:"opts,omitempty"`
	Icpt  *tIcpt  `json:"icpt,omitempty"`
	Cmp   string  `json:"cmp,omitempty"` // "", body
	Ctx   bool    `json:"ctx,omitempty"` // use BeginContext()
	Pre   bool    `json:"pre,omitempty"` // it is cancelled before
	Dl    int64   `json:"dl,omitempty"`  // seconds until the context's deadline; absent: none
}

// tIcpt is an interceptor of the command executor. For a custom action its name may
// be nil, which means that the one in force is removed.
type tIcpt struct {
	N   string `json:"n"`
	Do  int    `json:"do"`            // how often the command is passed on
	Oth string `json:"oth,omitempty"` // type of another command that is executed instead
	End string `json:"end,omitempty"` // "": the error of the last execution, ok, err, panic
	Can bool   `json:"can,omitempty"` // cancel the context at the end
}

type stopKey struct{}

type tStep struct {
	K     string   `json:"k"` // prepare, expect, sel, exec, ann, cancel
	Acts  []*tAct  `json:"acts,omitempty"`
	X     *tExp    `json:"x,omitempty"`
	Same  int      `json:"same,omitempty"` // use the expectation of this step (1-based)
	En    bool     `json:"en,omitempty"`
	Like  bool     `json:"like,omitempty"`
	Names []string `json:"names,omitempty"`
	M     string   `json:"m,omitempty"`
	T     string   `json:"t,omitempty"`
	Text  string   `json:"text,omitempty"` // ann: the annotation
}

// has reports whether the body of an action has a part of one of these kinds.
func (s *tStep) has(kinds ...string) bool {
	for _, a := range s.Acts {
		for _, b := range a.Body {
			if slices.Contains(kinds, b.K) {
				return true
			}
		}
	}
	return false
}

type tAct struct {
	K    string   `json:"k"` // exec, rec, by, to, adj, call, custom
	M    string   `json:"m,omitempty"`
	T    string   `json:"t,omitempty"`
	D    []int64  `json:"d,omitempty"` // by, adj: offset from the clock; to: from the base
	TZ   int      `json:"tz,omitempty"`
	Bind bool     `json:"bind,omitempty"` // custom: supports the executor
	Body []*tBody `json:"body,omitempty"`
	Icpt *tIcpt   `json:"icpt,omitempty"`
	End  string   `json:"end,omitempty"` // custom: "", err, panic; call: "", panic, exit
}

type tBody struct {
	K   string  `json:"k"` // ex, par, go, disp, clk, set
	M   string  `json:"m,omitempty"`
	T   string  `json:"t,omitempty"`
	N   int     `json:"n,omitempty"`
	Bad bool    `json:"bad,omitempty"`
	Can bool    `json:"can,omitempty"` // ex: the context is cancelled
	D   []int64 `json:"d,omitempty"`
}

type tExp struct {
	K    string            `json:"k"` // eq, typ, match, only, probe, sat, all, any, none, not, rep, nil
	L    string            `json:"l"`
	T    string            `json:"t,omitempty"`
	M    string            `json:"m,omitempty"`
	B    string            `json:"b,omitempty"`
	Near string            `json:"near,omitempty"` // eq: the message that it is almost equal to
	V    int               `json:"v,omitempty"`
	Pr   map[string]string `json:"pr,omitempty"` // body -> ok, ign, rej, rejk
	Ok   bool              `json:"ok,omitempty"`
	Err  bool              `json:"err,omitempty"`
	Kids []*tExp           `json:"kids,omitempty"`
	Sat  []*satOp          `json:"sat,omitempty"`
	Rep  *tRep             `json:"rep,omitempty"` // probe: what is reported
}

// satOp is one call that a satisfaction function makes.
type satOp struct {
	O    string   `json:"o"`
	C    string   `json:"c,omitempty"` // cleanup: its name
	Body []*satOp `json:"body,omitempty"`
}

// tRun executes one test scenario.
type tRun struct {
	*run
	ts     *tScenario
	tst    *testkit.Test
	exps   map[int]testkit.Expectation
	opOpen bool
	opName string
	opMsg  string
	cycles map[string]func()
	facts  digest
	conc   bool // the step executes commands concurrently
	async  bool // ... or while something else happens
	exN    int
	satN   int
	pool   []*poolMsg
	pools  map[int][]*poolMsg
	dry    bool
	stop   func() // cancels the test's context

	shared *tShare // if set, the application, actions and expectations are shared
}

// tShare is what several tests share. They are used one at a time.
type tShare struct {
	*sharing
	acts map[*tAct]testkit.Action
	exps map[*tExp]testkit.Expectation
	by   map[*run]*tRun
}

// me returns the test that is using the application.
func (r *tRun) me() *tRun {
	if r.shared == nil {
		return r
	}
	return r.shared.by[r.shared.cur[len(r.shared.cur)-1]]
}

// poolMsg is a message that was seen during a dry run.
type poolMsg struct {
	T, M, B string
	Inj     bool
}

func newTRun(ts *tScenario) *tRun {
	ts.App.CDH = true
	sc := &scenario{ID: ts.ID, App: ts.App, Beh: ts.Beh, lazy: ts.lazy}
	r := &tRun{run: newRun(sc), ts: ts, exps: map[int]testkit.Expectation{}, pools: map[int][]*poolMsg{}}
	r.run.texec = func(o sop) { r.exec("handler", o.T, o.P, false, false) }
	return r
}

func testJob(s *tScenario) job {
	return job{s.ID, func(sink io.Writer) ([]ev, bool) {
		r := newTRun(s)
		r.sink = sink
		r.execute()
		return r.close(), r.over
	}, s}
}

// The testing.T.

type tT struct{ r *tRun }

func (t tT) Failed() bool { return false }
func (t tT) Helper()      {}

func (t tT) Log(args ...any) {
	s := fmt.Sprint(args...)
	if strings.HasPrefix(s, "--- TEST REPORT ---") {
		e := ev{"e": "rep", "lines": t.r.parseReport(s)}
		if withRep {
			e["nodes"], e["junk"] = reportNodes(s)
		}
		t.r.add(e)
	} else if withLog {
		t.r.add(logEv(s))
	}
}

func (t tT) Logf(f string, args ...any) { t.Log(fmt.Sprintf(f, args...)) }

func (t tT) Fatal(args ...any) {
	e := ev{"e": "fatal", "tok": ""}
	for _, a := range args {
		if err, ok := a.(error); ok {
			var te *tokErr
			if errors.As(err, &te) {
				e["tok"] = te.tok
			}
		}
	}
	t.r.add(e)
	if t.r.ts.Stop == "exit" {
		runtime.Goexit()
	}
}

func (t tT) FailNow() {
	t.r.add(ev{"e": "failnow"})
	if t.r.ts.Stop == "exit" {
		runtime.Goexit()
	}
}

// Observation of the engine.

// ident hashes a fact. Roots are left out because they are mutable.
func (r *tRun) ident(f fact.Fact) uint64 {
	e := r.factEv(f)
	delete(e, "root")
	h := fnv.New64a()
	h.Write(mustJSON(e))
	return h.Sum64()
}

func mix(h, x uint64) uint64 { return h*1099511628211 ^ x }

// digest identifies a sequence of facts. If they were recorded concurrently the
// order of facts of different dispatches does not matter.
type digest struct {
	n  int
	h  uint64
	by map[string]uint64
}

func (d *digest) add(r *tRun, f fact.Fact) {
	x := r.ident(f)
	c := ""
	if v := reflect.ValueOf(f); v.Kind() == reflect.Struct {
		if e := v.FieldByName("Envelope"); e.IsValid() {
			c = e.Interface().(*envelope.Envelope).CorrelationID
		}
	}
	d.n++
	d.h = mix(d.h, x)
	if d.by == nil {
		d.by = map[string]uint64{}
	}
	d.by[c] = mix(d.by[c], x)
}

func (d *digest) String(conc bool) string {
	h := d.h
	if conc {
		h = 0
		for _, x := range d.by {
			h += x
		}
	}
	return fmt.Sprintf("%d:%x", d.n, h)
}

func (r *tRun) obs() string {
	r.sm.Lock()
	defer r.sm.Unlock()
	return r.facts.String(r.conc)
}

type tObserver struct{ r *tRun }

func (o tObserver) Notify(f fact.Fact) {
	r := o.r
	r.sm.Lock()
	r.facts.add(r, f)
	r.sm.Unlock()
	op := func(name, m, t, k string, now time.Time, en any) {
		r.now, r.wall = now, false
		r.sm.Lock()
		r.opOpen, r.opName, r.opMsg = true, name, m
		r.sm.Unlock()
		r.add(ev{"e": "op", "op": name, "m": m, "t": t, "k": k, "b": bodyOf(m), "bad": false, "now": r.tm(now), "wall": false, "opts": []any{}, "ctx": "", "obs": 0, "en": en})
	}
	ret := func(name string, err error) {
		r.sm.Lock()
		r.opOpen = false
		r.sm.Unlock()
		e := ev{"e": "ret", "op": name, "res": "ok", "errs": []ev{}, "pan": ev{"k": ""}, "can": false}
		if err != nil {
			e["res"] = "err"
			e["errs"] = r.errs(err)
		}
		r.add(e)
	}
	switch x := f.(type) {
	case fact.DispatchCycleBegun:
		k := keyOf(x.Envelope.Message)
		t := typeOf(x.Envelope.Message)
		r.saw(t, k, true)
		// The operation begins when the engine starts to dispatch the message,
		// which may be later if the engine is busy.
		r.sm.Lock()
		r.cycles[k] = func() {
			op("dispatch", k, t, typeByName[t].kind, x.EngineTime, r.enabled(x.EnabledHandlerTypes, x.EnabledHandlers))
		}
		r.sm.Unlock()
		if !r.async {
			r.begun(k)
		}
	case fact.TickCycleBegun:
		op("tick", "", "", "", x.EngineTime, r.enabled(x.EnabledHandlerTypes, x.EnabledHandlers))
	case fact.DispatchCycleCompleted:
		r.begun(keyOf(x.Envelope.Message))
	case fact.DispatchBegun:
		k := keyOf(x.Envelope.Message)
		r.begun(k)
		r.run.cur.Store(&k)
		r.dispatching.Store(true)
	case fact.DispatchCompleted:
		r.dispatching.Store(false)
	case fact.EventRecordedByAggregate:
		r.saw(typeOf(x.EventEnvelope.Message), keyOf(x.EventEnvelope.Message), false)
	case fact.EventRecordedByIntegration:
		r.saw(typeOf(x.EventEnvelope.Message), keyOf(x.EventEnvelope.Message), false)
	case fact.CommandExecutedByProcess:
		r.saw(typeOf(x.CommandEnvelope.Message), keyOf(x.CommandEnvelope.Message), false)
	}
	r.add(r.factEv(f))
	switch x := f.(type) {
	case fact.DispatchCycleCompleted:
		ret("dispatch", x.Error)
	case fact.TickCycleCompleted:
		ret("tick", x.Error)
	}
}

func (r *tRun) begun(k string) {
	r.sm.Lock()
	f := r.cycles[k]
	delete(r.cycles, k)
	r.sm.Unlock()
	if f != nil {
		f()
	}
}

func (r *tRun) saw(t, k string, inj bool) {
	if !r.dry {
		return
	}
	r.sm.Lock()
	r.pool = append(r.pool, &poolMsg{t, k, bodyOf(k), inj})
	r.sm.Unlock()
}

// broke records the end of the operation that a panic has aborted. If it is
// known, m is the key of the message that was dispatched.
func (r *tRun) broke(v any, m string) {
	r.sm.Lock()
	open, name := r.opOpen, r.opName
	if open && m != "" && r.opMsg != m && r.opMsg != m+"o" {
		open = false
	}
	if open {
		r.opOpen = false
	}
	r.sm.Unlock()
	if open {
		r.dispatching.Store(false)
		r.add(ev{"e": "ret", "op": name, "res": "panic", "errs": []ev{}, "pan": r.pan(v), "can": false})
	}
}

// The program.

func (r *tRun) execute() {
	defer r.guard()
	defer r.begin()()
	for i := range r.ts.Steps {
		if !r.next(i) {
			return
		}
	}
	r.add(ev{"e": "end"})
}

func (r *tRun) begin() context.CancelFunc {
	ae := r.appEv()
	ae["layer"] = "test"
	r.add(ae)
	b := r.ts.Begin
	opts := r.opOptions(opCfg{Opts: b.Opts})
	opts = append(opts, engine.WithObserver(tObserver{r}))
	var to []testkit.TestOption
	if b.Icpt != nil {
		to = append(to, testkit.InterceptCommandExecutor(r.icpt(b.Icpt)))
	}
	if b.Cmp == "body" {
		to = append(to, testkit.WithMessageComparator(func(x, y dogma.Message) bool { return fieldOf(x, "Body") == fieldOf(y, "Body") }))
	}
	to = append(to, testkit.WithUnsafeOperationOptions(opts...))
	be := ev{"e": "begin", "start": []int64{}, "opts": b.Opts, "cmp": b.Cmp, "icpt": icptEv(b.Icpt), "stop": r.ts.Stop}
	if b.Opts == nil {
		be["opts"] = []any{}
	}
	if b.Start != nil {
		st := off(base, b.Start).In(zone(b.TZ))
		be["start"] = r.tm(st)
		to = append(to, testkit.StartTimeAt(st))
	}
	be["lo"] = r.tm(time.Now())
	ctx, stop := context.Background(), func() {}
	if b.Ctx {
		c1, s1 := withCancel(context.WithValue(ctx, cxKey{}, "test"))
		c2, s2 := withDeadline(c1, b.Dl)
		ctx, stop = c2, func() { s1(); s2() }
		if b.Pre {
			stop()
		}
		r.tst = testkit.BeginContext(ctx, tT{r}, r.application(), to...)
	} else {
		r.tst = testkit.Begin(tT{r}, r.application(), to...)
	}
	be["cx"] = r.cx(ctx)
	be["hi"] = r.tm(time.Now())
	r.add(be)

	r.stop = stop
	return stop
}

func (r *tRun) application() dogma.Application {
	if r.shared != nil {
		return r.shared
	}
	return app{r.run}
}

// next performs the i-th step and reports whether the test can go on.
func (r *tRun) next(i int) bool {
	s := r.ts.Steps[i]
	r.sm.Lock()
	r.facts, r.pool, r.cycles, r.conc = digest{}, nil, map[string]func(){}, s.has("par")
	r.async = s.has("par", "go")
	r.sm.Unlock()
	r.run.cur.Store(nil)
	r.dispatching.Store(false)
	r.step(i, s)
	if r.over || r.stuck {
		return false
	}
	r.sm.Lock()
	r.pools[i] = r.pool
	r.sm.Unlock()
	return true
}

func icptEv(x *tIcpt) ev {
	if x == nil {
		return ev{"n": "", "do": 0, "oth": "", "end": ""}
	}
	return ev{"n": x.N, "do": x.Do, "oth": x.Oth, "end": x.End}
}

func actEv(r *tRun, a *tAct) ev {
	d := []int64{0, 0}
	if a.D != nil {
		d = addOff(a.D, []int64{0, 0})
	}
	b := []ev{}
	for _, x := range a.Body {
		b = append(b, ev{"k": x.K, "m": x.M, "t": x.T, "n": x.N, "bad": x.Bad})
	}
	return ev{"k": a.K, "m": a.M, "t": a.T, "d": d, "bind": a.Bind || a.K == "call", "icpt": icptEv(a.Icpt), "end": a.End, "body": b}
}

func expEv(x *tExp) ev {
	kids := []ev{}
	for _, k := range x.Kids {
		kids = append(kids, expEv(k))
	}
	pr := ev{"b0": "", "b1": "", "b2": ""}
	for k, v := range x.Pr {
		pr[k] = v
	}
	e := ev{"k": x.K, "l": x.L, "t": x.T, "m": x.M, "b": x.B, "pr": pr, "ok": x.Ok, "err": x.Err, "kids": kids}
	if withRep {
		e["rep"] = x.Rep.ev()
	}
	return e
}

func (r *tRun) step(i int, s *tStep) {
	var f func()
	switch s.K {
	case "prepare", "expect":
		acts, as := []ev{}, []testkit.Action{}
		for _, a := range s.Acts {
			acts = append(acts, actEv(r, a))
			as = append(as, r.action(a))
		}
		e := ev{"e": "step", "n": i + 1, "k": s.K, "acts": acts, "x": ev{"k": ""}, "same": s.Same}
		if s.K == "prepare" {
			f = func() { r.tst.Prepare(as...) }
		} else {
			x := s.X
			switch {
			case s.Same > 0:
				x = r.ts.Steps[s.Same-1].X
				r.exps[i] = r.exps[s.Same-1]
			case r.shared == nil:
				r.exps[i] = r.expect(x)
			}
			if r.shared != nil {
				if _, ok := r.shared.exps[x]; !ok {
					r.shared.exps[x] = r.expect(x)
				}
				r.exps[i] = r.shared.exps[x]
			}
			e["x"] = expEv(x)
			f = func() { r.tst.Expect(as[0], r.exps[i]) }
		}
		r.add(e)
	case "sel":
		m := []any{}
		for _, n := range s.Names {
			hit := []string{}
			for _, h := range r.ts.App.Hs {
				if s.Like && regexp.MustCompile(n).MatchString(h.N) || !s.Like && h.N == n {
					hit = append(hit, h.N)
				}
			}
			m = append(m, hit)
		}
		r.add(ev{"e": "sel", "en": s.En, "like": s.Like, "names": s.Names, "hits": m})
		f = func() {
			switch {
			case s.En && s.Like:
				r.tst.EnableHandlersLike(s.Names...)
			case s.En:
				r.tst.EnableHandlers(s.Names...)
			case s.Like:
				r.tst.DisableHandlersLike(s.Names...)
			default:
				r.tst.DisableHandlers(s.Names...)
			}
		}
	case "exec":
		r.add(ev{"e": "step", "n": i + 1, "k": "exec", "acts": []ev{}, "x": ev{"k": ""}, "same": 0})
		f = func() { r.exec("out", s.T, s.M, false, false) }
	case "ann":
		// An annotation of a string, or of a message.
		var v any = s.M
		if s.T != "" {
			v = mkMsg(s.T, s.M, bodyOf(s.M), "")
		}
		r.add(ev{"e": "ann", "t": s.T, "m": s.M, "b": bodyOf(s.M), "txt": s.Text})
		f = func() { r.tst.Annotate(v, s.Text) }
	case "cancel":
		r.add(ev{"e": "cancel"})
		f = r.stop
	}

	ok := watch(func() {
		res := "exit"
		defer func() {
			e := ev{"e": "sret", "k": s.K, "pan": ev{"k": ""}}
			if v := recover(); v != nil {
				if _, over := v.(overflow); over {
					return
				}
				r.broke(v, "")
				res = "panic"
				e["pan"] = r.pan(v)
			}
			e["res"] = res
			if !r.over {
				r.add(e)
			}
		}()
		f()
		res = "ok"
	})
	if !ok {
		r.add(ev{"e": "stuck"})
		r.stuck = true
	}
}

// exec uses the test's command executor.
func (r *tRun) exec(by, t, m string, bad, can bool) {
	r.sm.Lock()
	r.exN++
	id := r.exN
	r.sm.Unlock()
	b := ""
	if bad {
		b = "invalid"
	}
	own, cancel := context.WithCancel(context.Background())
	defer cancel()
	own = context.WithValue(own, stopKey{}, cancel)
	ctx, stop := withDeadline(context.WithValue(own, cxKey{}, "x:"+m), int64(id%3)*1000)
	defer stop()
	if can {
		c, f := withCancel(ctx)
		f()
		ctx = c
	}
	r.add(ev{"e": "ex", "id": id, "by": by, "m": m, "t": t, "bad": bad, "cx": r.cx(ctx)})
	e := ev{"e": "exx", "id": id, "by": by, "m": m, "res": "ok", "errs": []ev{}, "pan": ev{"k": ""}}
	func() {
		defer func() {
			if v := recover(); v != nil {
				if _, over := v.(overflow); over {
					panic(v)
				}
				r.broke(v, m)
				e["res"] = "panic"
				e["pan"] = r.pan(v)
			}
		}()
		err := r.tst.CommandExecutor().ExecuteCommand(ctx, mkMsg(t, m, bodyOf(m), b).(dogma.Command))
		if err != nil {
			e["res"] = "err"
			e["errs"] = r.errs(err)
		}
	}()
	r.add(e)
}

func (r *tRun) icpt(x *tIcpt) testkit.CommandExecutorInterceptor {
	return func(ctx context.Context, c dogma.Command, next dogma.CommandExecutor) error {
		r, m := r.me(), keyOf(c)
		r.add(ev{"e": "ic", "n": x.N, "m": m, "cx": r.cx(ctx)})
		var last error
		pass := func(c dogma.Command) {
			k := keyOf(c)
			r.add(ev{"e": "nx", "m": m, "p": k, "t": typeOf(c)})
			last = next.ExecuteCommand(ctx, c)
		}
		for i := 0; i < x.Do; i++ {
			pass(c)
		}
		if x.Oth != "" {
			pass(mkMsg(x.Oth, m+"o", bodyOf(m+"o"), "").(dogma.Command))
		}
		if f, ok := ctx.Value(stopKey{}).(context.CancelFunc); ok && x.Can {
			f()
		}
		e := ev{"e": "icx", "n": x.N, "m": m, "res": "ok", "tok": "", "errs": []ev{}}
		switch x.End {
		case "err":
			t := r.tok("x")
			e["res"], e["tok"] = "err", t
			r.add(e)
			return &tokErr{t}
		case "panic":
			t := r.tok("p")
			e["res"], e["tok"] = "panic", t
			r.add(e)
			panic(&tokPanic{t})
		case "ok":
			last = nil
		}
		if last != nil {
			e["res"] = "err"
			e["errs"] = r.errs(last)
		}
		r.add(e)
		return last
	}
}

// Actions.

func (r *tRun) action(a *tAct) testkit.Action {
	if r.shared == nil {
		return r.newAction(a)
	}
	x, ok := r.shared.acts[a]
	if !ok {
		x = r.newAction(a)
		r.shared.acts[a] = x
	}
	return x
}

func (r *tRun) newAction(a *tAct) testkit.Action {
	switch a.K {
	case "exec":
		return testkit.ExecuteCommand(mkMsg(a.T, a.M, bodyOf(a.M), "").(dogma.Command))
	case "rec":
		return testkit.RecordEvent(mkMsg(a.T, a.M, bodyOf(a.M), "").(dogma.Event))
	case "by":
		d := time.Duration(a.D[0]) * time.Second
		if len(a.D) > 1 {
			d += time.Duration(a.D[1])
		}
		return testkit.AdvanceTime(testkit.ByDuration(d))
	case "to":
		return testkit.AdvanceTime(testkit.ToTime(off(base, a.D).In(zone(a.TZ))))
	case "adj":
		return testkit.AdvanceTime(adjustment{r, a})
	case "call":
		var opts []testkit.CallOption
		if a.Icpt != nil {
			opts = append(opts, testkit.InterceptCommandExecutor(r.icpt(a.Icpt)))
		}
		return testkit.Call(func() {
			r := r.me()
			r.add(ev{"e": "call"})
			r.body(context.Background(), a, nil)
			switch a.End {
			case "panic":
				t := r.tok("p")
				r.add(ev{"e": "callx", "res": "panic", "tok": t})
				panic(&tokPanic{t})
			case "exit":
				r.add(ev{"e": "callx", "res": "exit", "tok": ""})
				runtime.Goexit()
			}
			r.add(ev{"e": "callx", "res": "ok", "tok": ""})
		}, opts...)
	case "custom":
		return customAction{r, a}
	}
	panic("harness: bad action " + a.K)
}

type adjustment struct {
	r *tRun
	a *tAct
}

func (x adjustment) Description() string { return "as scripted, 100%d" }

func (x adjustment) Step(t time.Time) time.Time {
	u := off(t, x.a.D).In(zone(x.a.TZ))
	r := x.r.me()
	r.add(ev{"e": "adj", "from": r.tm(t), "to": r.tm(u)})
	return u
}

func (r *tRun) body(ctx context.Context, a *tAct, s *testkit.ActionScope) {
	by := "call"
	if s != nil {
		by = "custom"
	}
	r.inside()
	for _, b := range a.Body {
		switch b.K {
		case "ex":
			r.exec(by, b.T, b.M, b.Bad, b.Can)
		case "par":
			var wg sync.WaitGroup
			for i := 0; i < b.N; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer r.guard()
					r.exec(by, b.T, b.M+"p"+strconv.Itoa(i), false, false)
				}()
			}
			wg.Wait()
		case "go":
			// The execution is still in progress when the function returns. A
			// handler is held for a while, or else an interceptor.
			r.hold = make(chan struct{}, 1)
			r.holding.Store(true)
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer r.guard()
				r.exec(by, b.T, b.M, false, false)
			}()
			select {
			case <-r.hold:
			case <-done:
			}
			r.holding.Store(false)
		case "disp":
			func() {
				defer func() {
					if v := recover(); v != nil {
						if _, over := v.(overflow); over {
							panic(v)
						}
						r.broke(v, b.M)
					}
				}()
				_ = s.Engine.Dispatch(ctx, mkMsg(b.T, b.M, bodyOf(b.M), ""), s.OperationOptions...)
			}()
		case "clk":
			r.add(ev{"e": "clk", "at": r.tm(*s.VirtualClock)})
		case "set":
			*s.VirtualClock = off(*s.VirtualClock, b.D)
			r.add(ev{"e": "set", "at": r.tm(*s.VirtualClock)})
		}
	}
}

type customAction struct {
	r *tRun
	a *tAct
}

func (c customAction) Caption() string             { return "doing as scripted, 100%s" }
func (c customAction) Location() location.Location { return location.Location{} }
func (c customAction) ConfigurePredicate(o *testkit.PredicateOptions) {
	if c.a.Bind {
		o.MatchDispatchCycleStartedFacts = true
	}
}

func (c customAction) Do(ctx context.Context, s testkit.ActionScope) error {
	r := c.r.me()
	r.add(ev{"e": "do", "at": r.tm(*s.VirtualClock), "cx": r.cx(ctx)})
	if c.a.Bind {
		s.Executor.Bind(s.Engine, s.OperationOptions)
		defer s.Executor.Unbind()
	}
	if x := c.a.Icpt; x != nil {
		var f testkit.CommandExecutorInterceptor
		if x.N != "nil" {
			f = c.r.icpt(x)
		}
		prev := s.Executor.Intercept(f)
		defer func() { s.Executor.Intercept(prev) }()
	}
	r.body(ctx, c.a, &s)
	switch c.a.End {
	case "err":
		t := r.tok("x")
		r.add(ev{"e": "dox", "res": "err", "tok": t})
		return &tokErr{t}
	case "panic":
		t := r.tok("p")
		r.add(ev{"e": "dox", "res": "panic", "tok": t})
		panic(&tokPanic{t})
	}
	r.add(ev{"e": "dox", "res": "ok", "tok": ""})
	return nil
}

// Expectations.

// byBody reports whether only the bodies of messages are compared.
func byBody(o testkit.PredicateOptions) bool {
	f := o.MessageComparator
	return f != nil && f(mkMsg("C0", "x", "b0", ""), mkMsg("C0", "y", "b0", ""))
}

func (r *tRun) expect(x *tExp) testkit.Expectation {
	kids := func() []testkit.Expectation {
		var out []testkit.Expectation
		for _, k := range x.Kids {
			out = append(out, r.expect(k))
		}
		return out
	}
	switch x.K {
	case "eq":
		m := mkMsg(x.T, x.M, x.B, "")
		if x.Near != "" && !withRep {
			m = nearly(mkMsg(x.T, x.Near, x.B, ""))
		}
		if c, ok := m.(dogma.Command); ok {
			return testkit.ToExecuteCommand(c)
		}
		return testkit.ToRecordEvent(m.(dogma.Event))
	case "typ":
		return typeByName[x.T].typ()[x.V%2]
	case "match", "only":
		mt := typeByName[x.T]
		if a, ok := anyTypes[x.T]; ok {
			mt = a
		}
		return mt.match(x.K == "only", func(m dogma.Message) error {
			r := r.me()
			k, b := keyOf(m), fieldOf(m, "Body")
			d := x.Pr[b]
			r.add(ev{"e": "pm", "l": x.L, "m": k, "t": typeOf(m), "res": d})
			switch d {
			case "ign":
				return testkit.IgnoreMessage
			case "rej":
				return errors.New("rejected " + b)
			case "rejk":
				return errors.New("rejected " + k)
			}
			return nil
		})
	case "probe":
		return &probe{r, x}
	case "sat":
		return testkit.ToSatisfy("satisfy "+x.L, func(t *testkit.SatisfyT) {
			r := r.me()
			d := digest{}
			for _, f := range t.Facts {
				d.add(r, f)
			}
			r.add(ev{"e": "sat", "l": x.L, "w": "b", "seen": d.String(r.conc), "obs": r.obs(), "bind": t.Options.MatchDispatchCycleStartedFacts, "cmp": byBody(t.Options)})
			r.sat(t, x.L, x.Sat)
		})
	case "all":
		return testkit.AllOf(kids()...)
	case "any":
		return testkit.AnyOf(kids()...)
	case "none":
		return testkit.NoneOf(kids()...)
	case "not":
		return testkit.Not(kids()[0])
	case "rep":
		return testkit.ToRepeatedly("repeat "+x.L, len(x.Kids), func(i int) testkit.Expectation {
			if x.Kids[i].K == "nil" {
				return nil
			}
			return r.expect(x.Kids[i])
		})
	}
	panic("harness: bad expectation " + x.K)
}

// sat performs the calls of a satisfaction function or a cleanup.
func (r *tRun) sat(t *testkit.SatisfyT, l string, ops []*satOp) {
	for _, o := range ops {
		if o.O == "ask" {
			r.add(ev{"e": "sat", "l": l, "w": "ask", "failed": t.Failed(), "skipped": t.Skipped()})
			continue
		}
		e := ev{"e": "sat", "l": l, "w": "op", "o": o.O, "c": o.C, "tok": ""}
		if o.O == "panic" {
			e["tok"] = r.tok("p")
		}
		if c, ok := satFns[o.O]; ok {
			f := r.satCall(t, c, o.O, l, e)
			r.add(e)
			satOut(f)
			continue
		}
		r.add(e)
		switch o.O {
		case "helper":
			t.Helper()
		case "name":
			_ = t.Name()
		case "parallel":
			t.Parallel()
		case "panic":
			panic(&tokPanic{e["tok"].(string)})
		case "goexit":
			runtime.Goexit()
		case "cleanup":
			t.Cleanup(func() {
				r.add(ev{"e": "sat", "l": l, "w": "c", "c": o.C})
				r.sat(t, l, o.Body)
			})
		}
	}
	r.add(ev{"e": "sat", "l": l, "w": "x"})
}

// probe is an expectation with a scripted outcome.
type probe struct {
	r *tRun
	x *tExp
}

func (p *probe) Caption() string { return "to probe " + p.x.L }

func (p *probe) Predicate(s testkit.PredicateScope) (testkit.Predicate, error) {
	r := p.r.me()
	r.add(ev{"e": "pnew", "l": p.x.L, "err": p.x.Err, "bind": s.Options.MatchDispatchCycleStartedFacts, "cmp": byBody(s.Options)})
	if p.x.Err {
		return nil, &tokErr{"probe"}
	}
	return &probePred{r: r, x: p.x}, nil
}

type probePred struct {
	r    *tRun
	x    *tExp
	m    sync.Mutex
	d    digest
	busy atomic.Int32
	done bool
}

func (p *probePred) Notify(f fact.Fact) {
	if p.done {
		p.r.add(ev{"e": "plate", "l": p.x.L})
	}
	if p.busy.Add(1) > 1 {
		p.r.add(ev{"e": "pover", "l": p.x.L})
	}
	p.m.Lock()
	p.d.add(p.r, f)
	p.m.Unlock()
	p.busy.Add(-1)
}

func (p *probePred) Ok() bool {
	// What is said before the predicate is done is provisional, and here it is
	// often wrong.
	if !p.done && p.x.L[len(p.x.L)-1]%2 == 0 {
		return !p.x.Ok
	}
	return p.x.Ok
}

func (p *probePred) Done() {
	p.done = true
	p.r.add(ev{"e": "pdone", "l": p.x.L, "seen": p.d.String(p.r.conc), "obs": p.r.obs()})
}

func (p *probePred) Report(ctx testkit.ReportGenerationContext) *testkit.Report {
	p.r.add(ev{"e": "prep", "l": p.x.L, "tree": ctx.TreeOk, "inv": ctx.IsInverted})
	rep := &testkit.Report{TreeOk: ctx.TreeOk, Ok: p.x.Ok, Criteria: "probe " + p.x.L}
	if p.x.Rep != nil {
		p.x.Rep.fill(rep)
	}
	return rep
}

// The report.

var (
	nodeRE = regexp.MustCompile(`^((?:    )*)(✓|✗) (.*)$`)
	sectRE = regexp.MustCompile(`^((?:    )*)  \| (.*)$`)

	outREs = []struct {
		k  string
		re *regexp.Regexp
	}{
		{"allfail", regexp.MustCompile(` \(all (\d+) of the expectations failed\)$`)},
		{"nfail", regexp.MustCompile(` \((\d+) of the expectations failed\)$`)},
		{"npass", regexp.MustCompile(` \((\d+) of the expectations passed unexpectedly\)$`)},
		{"onepass", regexp.MustCompile(` \(the expectation passed unexpectedly\)$`)},
		{"rep", regexp.MustCompile(` \((\d+) of (\d+) iteration\(s\) failed, iteration #(\d+) shown\)$`)},
		{"skipped", regexp.MustCompile(` \(the expectation was skipped\)$`)},
		{"failed", regexp.MustCompile(` \(the expectation failed\)$`)},
	}

	expREs = []struct {
		k  string
		re *regexp.Regexp
	}{
		{"noen", regexp.MustCompile(`^no relevant handler types were enabled$`)},
		{"noeng", regexp.MustCompile(`^no relevant handlers \((.*)\) were engaged$`)},
		{"nomsg", regexp.MustCompile(`^no messages were produced at all$`)},
		{"nokind", regexp.MustCompile(`^no (command|event)s were (?:executed|recorded) at all$`)},
		{"nomatch", regexp.MustCompile(`^nothing (?:executed|recorded) a matching (command|event)$`)},
		{"nomatch", regexp.MustCompile(`^none of the engaged handlers (?:executed|recorded) a matching (command|event)$`)},
		{"count", regexp.MustCompile(`^only (\d+) of (\d+) relevant (?:command|event)s? matched the predicate$`)},
		{"zero", regexp.MustCompile(`^none of the (\d+) relevant (?:command|event)s? matched the predicate$`)},
		{"simh", regexp.MustCompile(`^a similar (command|event) was (?:executed|recorded) by the '(.*)' (\w+) message handler$`)},
		{"simx", regexp.MustCompile(`^a similar (command|event) was (?:executed|recorded) via a `)},
	}

	sugREs = []struct {
		k  string
		re *regexp.Regexp
	}{
		{"enable", regexp.MustCompile(`^enable (\w+) handlers using the EnableHandlerType\(\) option$`)},
		{"routing", regexp.MustCompile(`^check the application's routing configuration$`)},
		{"verify", regexp.MustCompile(`^verify the logic within the '(.*)' (\w+) message handler$`)},
		{"ign", regexp.MustCompile(`^verify the logic within the predicate function, it ignored (\d+) (?:command|event)s?$`)},
		{"pred", regexp.MustCompile(`^verify the logic within the predicate function$`)},
		{"user", regexp.MustCompile(`^verify the logic within the code that uses the `)},
		{"content", regexp.MustCompile(`^check the content of the message$`)},
	}
	failRE = regexp.MustCompile(`^(.*?): (.*?)(?: \(repeated (\d+) times\))?$`)
)

func num(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return n
}

// parseReport turns a report into records, one per line of its outline.
func (r *tRun) parseReport(s string) []ev {
	out := []ev{}
	var cur ev
	var sect string
	for _, ln := range strings.Split(s, "\n") {
		if m := nodeRE.FindStringSubmatch(ln); m != nil {
			cur = ev{"d": len(m[1]) / 4, "ok": m[2] == "✓", "out": ev{"k": "", "a": 0, "b": 0, "c": 0},
				"ex": ev{"k": "", "h": "", "ht": "", "a": 0, "b": 0, "kind": "", "l": []string{}}, "sg": []ev{}, "fm": []ev{}}
			txt := m[3]
			for _, o := range outREs {
				if g := o.re.FindStringSubmatch(txt); g != nil {
					oe := ev{"k": o.k, "a": 0, "b": 0, "c": 0}
					for i, f := range []string{"a", "b", "c"} {
						if i+1 < len(g) {
							oe[f] = num(g[i+1])
						}
					}
					cur["out"] = oe
					txt = txt[:len(txt)-len(g[0])]
					break
				}
			}
			cur["crit"] = txt
			out = append(out, cur)
			sect = ""
			continue
		}
		m := sectRE.FindStringSubmatch(ln)
		if m == nil || cur == nil {
			continue
		}
		txt := m[2]
		if !strings.HasPrefix(txt, "    ") {
			if t := strings.TrimSpace(txt); t != "" {
				sect = t
			}
			continue
		}
		txt = strings.TrimPrefix(txt, "    ")
		switch sect {
		case "EXPLANATION":
			cur["ex"] = explain(txt)
		case "SUGGESTIONS":
			cur["sg"] = append(cur["sg"].([]ev), suggest(strings.TrimPrefix(txt, "• ")))
		case "FAILED MATCHES":
			if g := failRE.FindStringSubmatch(strings.TrimPrefix(txt, "• ")); g != nil {
				n := 1
				if g[3] != "" {
					n = num(g[3])
				}
				x := g[2]
				if strings.HasPrefix(x, "predicate function expected ") {
					x = "type"
				}
				cur["fm"] = append(cur["fm"].([]ev), ev{"t": typeByString[g[1]], "x": x, "n": n})
			}
		}
	}
	return out
}

func explain(txt string) ev {
	e := ev{"k": "other", "h": "", "ht": "", "a": 0, "b": 0, "kind": "", "l": []string{}}
	for _, x := range expREs {
		g := x.re.FindStringSubmatch(txt)
		if g == nil {
			continue
		}
		e["k"] = x.k
		switch x.k {
		case "noeng":
			e["l"] = strings.Split(g[1], " or ")
		case "nokind", "nomatch", "simx":
			e["kind"] = g[1][:1]
		case "count":
			e["a"], e["b"] = num(g[1]), num(g[2])
		case "zero":
			e["b"] = num(g[1])
		case "simh":
			e["kind"], e["h"], e["ht"] = g[1][:1], g[2], g[3]
		}
		break
	}
	return e
}

func suggest(txt string) ev {
	e := ev{"k": "other", "h": "", "ht": "", "a": 0}
	for _, x := range sugREs {
		g := x.re.FindStringSubmatch(txt)
		if g == nil {
			continue
		}
		e["k"] = x.k
		switch x.k {
		case "enable":
			e["ht"] = g[1]
		case "verify":
			e["h"], e["ht"] = g[1], g[2]
		case "ign":
			e["a"] = num(g[1])
		}
		break
	}
	return e
}
