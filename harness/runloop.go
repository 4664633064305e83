package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// A loop scenario lets engine.Run() or engine.RunTimeScaled() tick an engine
// that has timeouts pending, whose handler is slow, fails or cancels the loop.

type loopTimeout struct {
	At   int64  `json:"at"`   // microseconds after the start, in engine time
	Slow int64  `json:"slow"` // microseconds
	End  string `json:"end"`  // "", err, cancel
}

type loopScenario struct {
	ID    string        `json:"id"`
	Fn    string        `json:"fn"` // run, scaled
	D     int64         `json:"d"`  // microseconds
	Num   int64         `json:"num"`
	Den   int64         `json:"den"`
	Given bool          `json:"given"`
	Start int64         `json:"start"` // seconds after base
	Opts  []any         `json:"opts"`
	Rev   bool          `json:"rev"` // observers before the other options
	Tms   []loopTimeout `json:"tms"`
	Pre   bool          `json:"pre"`
	Dl    int64         `json:"dl"`    // deadline in microseconds
	After int64         `json:"after"` // cancel after that many microseconds
	Ticks int           `json:"ticks"` // cancel when that many ticks have completed
}

type loopRun struct {
	*rec
	sc     *loopScenario
	m      sync.Mutex
	cancel context.CancelFunc
	call   time.Time
	zero   time.Time // engine times are relative to this
	last   error
	ticks  int
	armed  bool
	any    atomic.Bool
}

func (r *loopRun) w() int64 { return time.Since(r.call).Microseconds() }

type loopApp struct{ r *loopRun }

func (a loopApp) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("app", handlerKey(999))
	c.RegisterProcess(&loopProc{a.r})
	c.RegisterProjection(&loopProj{"j1", handlerKey(2)})
	c.RegisterProjection(&loopProj{"j2", handlerKey(3)})
}

type loopProc struct{ r *loopRun }
type loopRoot struct{}

func (h *loopProc) Configure(c dogma.ProcessConfigurer) {
	c.Identity("p", handlerKey(1))
	c.Routes(dogma.HandlesEvent[Ev[x0]](), dogma.ExecutesCommand[Cmd[x0]](), dogma.SchedulesTimeout[Tm[x0]]())
}
func (h *loopProc) New() dogma.ProcessRoot { return &loopRoot{} }
func (h *loopProc) RouteEventToInstance(context.Context, dogma.Event) (string, bool, error) {
	return "i", true, nil
}
func (h *loopProc) HandleEvent(_ context.Context, _ dogma.ProcessRoot, sc dogma.ProcessEventScope, _ dogma.Event) error {
	for i, t := range h.r.sc.Tms {
		sc.ScheduleTimeout(Tm[x0]{Key: strconv.Itoa(i)}, h.r.zero.Add(time.Duration(t.At)*time.Microsecond))
	}
	return nil
}
func (h *loopProc) HandleTimeout(ctx context.Context, _ dogma.ProcessRoot, _ dogma.ProcessTimeoutScope, m dogma.Timeout) error {
	i, _ := strconv.Atoi(keyOf(m))
	t := h.r.sc.Tms[i]
	h.r.add(ev{"e": "cb", "w": "handle", "cx": h.r.cx(ctx)})
	time.Sleep(time.Duration(t.Slow) * time.Microsecond)
	switch t.End {
	case "err":
		return &tokErr{"t" + strconv.Itoa(i)}
	case "cancel":
		h.r.cancel()
		h.r.add(ev{"e": "cancel", "sync": true})
	}
	return nil
}

type loopProj struct{ n, key string }

func (h *loopProj) Configure(c dogma.ProjectionConfigurer) {
	c.Identity(h.n, h.key)
	c.Routes(dogma.HandlesEvent[Ev[x1]]())
}
func (h *loopProj) ResourceVersion(context.Context, []byte) ([]byte, error)     { return nil, nil }
func (h *loopProj) CloseResource(context.Context, []byte) error                 { return nil }
func (h *loopProj) Compact(context.Context, dogma.ProjectionCompactScope) error { return nil }
func (h *loopProj) HandleEvent(context.Context, []byte, []byte, []byte, dogma.ProjectionEventScope, dogma.Event) (bool, error) {
	return true, nil
}

type loopObserver struct {
	r *loopRun
	o int
}

func (o loopObserver) Notify(f fact.Fact) {
	r := o.r
	switch x := f.(type) {
	case fact.TickCycleBegun:
		r.any.Store(true)
		us := x.EngineTime.Sub(r.zero).Microseconds()
		us = max(min(us, 2e9), -2e9)
		r.add(ev{"e": "tcb", "o": o.o, "us": us, "w": r.w()})
	case fact.TickBegun:
		r.add(ev{"e": "tk", "o": o.o, "h": x.Handler.Identity().Name})
	case fact.TickSkipped:
		r.add(ev{"e": "ts", "o": o.o, "h": x.Handler.Identity().Name})
	case fact.TickCycleCompleted:
		tok := ""
		var te *tokErr
		switch {
		case errors.As(x.Error, &te):
			tok = te.tok
		case x.Error != nil:
			tok = "?"
		}
		r.add(ev{"e": "tx", "o": o.o, "tok": tok, "w": r.w()})
		if o.o == 1 {
			r.m.Lock()
			r.last = x.Error
			r.ticks++
			stop := r.ticks >= r.sc.Ticks && !r.armed
			r.armed = r.armed || stop
			r.m.Unlock()
			if stop {
				r.cancel()
				r.add(ev{"e": "cancel", "sync": r.sc.D > 1e9})
			}
		}
	}
}

func (r *loopRun) execute() {
	defer r.guard()
	s := r.sc
	e := engine.MustNew(configkit.FromApplication(loopApp{r}))
	start := time.Time{}
	r.zero = time.Now()
	if s.Given {
		start = time.Unix(base.Unix()+s.Start, 0).In(zone(int(s.Start) % 7))
		r.zero = start
	}
	if len(s.Tms) > 0 {
		if err := e.Dispatch(context.Background(), Ev[x0]{Key: "e"}, engine.WithCurrentTime(r.zero.Add(-time.Hour))); err != nil {
			panic("harness: " + err.Error())
		}
	}
	ctx, cancel := withCancel(context.WithValue(context.Background(), cxKey{}, "loop"))
	defer cancel()
	if s.Dl > 0 {
		var c2 context.CancelFunc
		ctx, c2 = context.WithTimeout(ctx, time.Duration(s.Dl)*time.Microsecond)
		defer c2()
	}
	r.cancel = cancel
	var opts []engine.OperationOption
	for _, x := range s.Opts {
		l := x.([]any)
		n, b := l[1].(string), l[2].(bool)
		switch {
		case l[0] == "h":
			opts = append(opts, engine.EnableHandler(n, b))
		case n == "projection":
			opts = append(opts, engine.EnableProjections(b))
		default:
			opts = append(opts, engine.EnableProcesses(b))
		}
	}
	o1, o2 := engine.WithObserver(loopObserver{r, 1}), engine.WithObserver(loopObserver{r, 2})
	if s.Rev {
		opts = append([]engine.OperationOption{o1}, append(opts, o2)...)
	} else {
		opts = append(opts, o1, o2)
	}
	oo := s.Opts
	if oo == nil {
		oo = []any{}
	}
	wait := s.D
	if wait == 0 {
		wait = engine.DefaultTickInterval.Microseconds()
	}
	r.add(ev{"e": "run", "d": min(wait, 1e8), "given": s.Given, "num": s.Num, "den": s.Den, "opts": oo, "cx": r.cx(ctx)})
	if s.Pre {
		cancel()
		r.add(ev{"e": "cancel", "sync": false})
	}
	if s.After > 0 {
		t := time.AfterFunc(time.Duration(s.After)*time.Microsecond, func() {
			cancel()
			r.add(ev{"e": "cancel", "sync": false})
		})
		defer t.Stop()
	}
	d := time.Duration(s.D) * time.Microsecond
	var err error
	done := make(chan struct{})
	r.call = time.Now()
	if !s.Given {
		r.zero = r.call
	}
	go func() {
		defer close(done)
		if s.Fn == "run" {
			err = engine.Run(ctx, e, d, opts...)
		} else {
			err = engine.RunTimeScaled(ctx, e, d, float64(s.Num)/float64(s.Den), start, opts...)
		}
	}()
	t := time.NewTimer(patience)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		stuckRuns.Add(1)
		if !r.any.Load() {
			r.add(ev{"e": "late"})
		} else {
			r.add(ev{"e": "stuck"})
		}
		return
	}
	res := "other"
	var te *tokErr
	r.m.Lock()
	same := err != nil && errors.Is(err, r.last)
	r.m.Unlock()
	switch {
	case err == nil:
		res = "nil"
	case errors.As(err, &te):
		res = te.tok
	case err == context.Canceled:
		res = "ctx"
	case err == context.DeadlineExceeded:
		res = "dl"
	}
	c := ""
	switch ctx.Err() {
	case context.Canceled:
		c = "ctx"
	case context.DeadlineExceeded:
		c = "dl"
	}
	r.add(ev{"e": "ret", "res": res, "same": same, "ctx": c})
	// Anything that still ticks does so now.
	time.Sleep(min(2*d, 5*time.Millisecond))
	r.add(ev{"e": "end"})
}

// farStarts are the first instants of other ages, in seconds after base.
var farStarts = []int64{-base.Unix(), -base.Unix() - 1, 1 - base.Unix(), 1 - base.Unix() - 62135596800, -13_000_000_000, 200_000_000_000}

func genLoop(prof string, seed uint64, idx int) *loopScenario {
	q := newRng(seed, "loop", prof, strconv.Itoa(idx))
	s := &loopScenario{ID: fmt.Sprintf("loop-%s/%d/%d", prof, seed, idx), Fn: "scaled", Num: 1, Den: 1}
	switch x := q.Float64(); {
	case x < 0.15:
		s.Fn = "run"
	case x < 0.25:
	default:
		f := pick(q, [][2]int64{{2, 1}, {1, 2}, {10, 1}, {100, 1}, {3, 4}, {1, 10}, {0, 1}, {-1, 1}, {7, 3}, {50, 1}, {99, 100}})
		s.Num, s.Den = f[0], f[1]
	}
	if s.Fn == "scaled" && q.p(0.75) {
		s.Given, s.Start = true, int64(q.IntN(2_000_000_000))-1_000_000_000
		if q.p(0.2) {
			s.Start = pick(q, farStarts)
		}
	}
	s.D = int64(200 + q.IntN(3000))
	s.Ticks = 1 + q.IntN(8)
	if q.p(0.06) {
		s.D, s.Ticks = 3600_000_000, 1 // the first tick must not wait
	} else if q.p(0.01) {
		s.D, s.Ticks = 0, 2
	}
	s.Rev = q.p(0.5)
	for i := q.IntN(4); i > 0; i-- {
		if q.p(0.7) {
			s.Opts = append(s.Opts, []any{"h", pick(q, []string{"p", "j1", "j2"}), q.p(0.4)})
		} else {
			s.Opts = append(s.Opts, []any{"ty", pick(q, []string{"projection", "process"}), q.p(0.4)})
		}
	}
	span := int64(s.Ticks) * min(s.D, 100000) * max(s.Num, 0) / s.Den
	for i := q.IntN(4); i > 0; i-- {
		t := loopTimeout{At: q.Int64N(span + 1)}
		switch {
		case q.p(0.4):
			t.Slow = int64(500 + q.IntN(3000))
		case q.p(0.4):
			t.End = "err"
		case q.p(0.3):
			t.End = "cancel"
		}
		s.Tms = append(s.Tms, t)
	}
	switch {
	case q.p(0.05):
		s.Pre = true
	case q.p(0.1) && s.D < 1e9:
		s.Dl = int64(q.IntN(8000)) + 1
	case q.p(0.15) && s.D < 1e9:
		s.After = int64(q.IntN(8000)) + 1
	}
	return s
}

func loopJob(s *loopScenario) job {
	return job{s.ID, func(sink io.Writer) ([]ev, bool) {
		r := &loopRun{rec: newRec(base), sc: s}
		r.sink = sink
		r.execute()
		return r.close(), r.over
	}, s}
}
