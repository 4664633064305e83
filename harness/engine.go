package main

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	_ "time/tzdata"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"go.uber.org/multierr"
)

var base = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// tokErr is an error returned by a harness handler.
type tokErr struct{ tok string }

// Different errors may have the same text.
func (e *tokErr) Error() string {
	if n := len(e.tok); n > 1 && e.tok[n-1] < '6' {
		return "<x> 100%s"
	}
	return "<" + e.tok + "> 100%s"
}

// Unwrap makes some errors look like those of a context, although the context
// of the operation is fine.
func (e *tokErr) Unwrap() error {
	switch e.tok[len(e.tok)-1] {
	case '4':
		return context.Canceled
	case '7':
		return context.DeadlineExceeded
	}
	return nil
}

// tokPanic is a panic value of a harness handler.
type tokPanic struct{ tok string }

// Some of them look like dogma.UnexpectedMessage when they are printed.
func (p *tokPanic) String() string {
	if p.tok[len(p.tok)-1]%3 == 0 {
		return fmt.Sprint(dogma.UnexpectedMessage)
	}
	return "<panic " + p.tok + ">"
}

// run executes one scenario.
type run struct {
	*rec
	sc      *scenario
	names   map[string]bool
	stores  map[string]map[string]string // projection -> resource -> version
	applied map[string]int
	opCtx   context.Context // of the current operation
	dlErr   bool
	compN   map[string]int
	routed  map[string]string
	cancel  context.CancelFunc
	now     time.Time
	wall    bool
	toks    int
	sm      sync.Mutex
	gates   map[string]chan struct{}

	cur         atomic.Pointer[string] // key of the message being dispatched
	dispatching atomic.Bool
	notifying   atomic.Int32
	obsN        []int
	obsH        []uint64
	opN         int
	stuck       bool

	texec   func(sop)     // uses the test's executor
	hold    chan struct{} // signalled by a handler that is being held
	holding atomic.Bool

	cfg       configkit.RichApplication // if set, the application is shared
	meanwhile func()                    // if set, called by handlers
}

// patience is how long an operation may take.
var patience = 15 * time.Second

// stuckRuns counts the operations that did not return.
var stuckRuns atomic.Int32

// watch calls f and reports whether it returned in time.
func watch(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(patience)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		stuckRuns.Add(1)
		return false
	}
}

func newRun(sc *scenario) *run {
	r := &run{
		rec:     newRec(base),
		sc:      sc,
		names:   map[string]bool{},
		stores:  map[string]map[string]string{},
		applied: map[string]int{},
		compN:   map[string]int{},
		routed:  map[string]string{},
		gates:   map[string]chan struct{}{},
	}
	for _, h := range sc.App.Hs {
		r.names[h.N] = true
		r.stores[h.N] = map[string]string{}
	}
	return r
}

func (r *run) tok(prefix string) string {
	r.sm.Lock()
	defer r.sm.Unlock()
	r.toks++
	return prefix + r.g + strconv.Itoa(r.toks)
}

// Application.

type app struct{ r *run }

// sharing lets several engines or tests use the same application, one at a time.
type sharing struct {
	hs   []func(*run)
	regs []func(dogma.ApplicationConfigurer)
	cur  []*run
}

// enter makes r the user of the application until the result is called.
func (s *sharing) enter(r *run) func() {
	s.cur = append(s.cur, r)
	s.set(r)
	return func() {
		s.cur = s.cur[:len(s.cur)-1]
		if n := len(s.cur); n > 0 {
			s.set(s.cur[n-1])
		}
	}
}

func (s *sharing) set(r *run) {
	for _, f := range s.hs {
		f(r)
	}
}

func (s *sharing) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("app", handlerKey(999))
	for _, f := range s.regs {
		f(c)
	}
}

// share makes the application of r available to others.
func share(r *run) *sharing {
	s := &sharing{}
	for i, h := range r.sc.App.Hs {
		b := hbase{r: r, cfg: h, key: handlerKey(i)}
		switch h.T {
		case "aggregate":
			x := &aggHandler{b}
			s.hs = append(s.hs, func(r *run) { x.r = r })
			s.regs = append(s.regs, func(c dogma.ApplicationConfigurer) { c.RegisterAggregate(x) })
		case "process":
			x := &procHandler{b}
			s.hs = append(s.hs, func(r *run) { x.r = r })
			s.regs = append(s.regs, func(c dogma.ApplicationConfigurer) { c.RegisterProcess(x) })
		case "integration":
			x := &intHandler{b}
			s.hs = append(s.hs, func(r *run) { x.r = r })
			s.regs = append(s.regs, func(c dogma.ApplicationConfigurer) { c.RegisterIntegration(x) })
		case "projection":
			x := &projHandler{hbase: b}
			s.hs = append(s.hs, func(r *run) { x.r = r })
			s.regs = append(s.regs, func(c dogma.ApplicationConfigurer) { c.RegisterProjection(x) })
		}
	}
	return s
}

func handlerKey(i int) string { return fmt.Sprintf("00000000-0000-4000-8000-%012d", i+1) }

func (a app) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("app", handlerKey(999))
	for i, h := range a.r.sc.App.Hs {
		b := hbase{r: a.r, cfg: h, key: handlerKey(i)}
		switch h.T {
		case "aggregate":
			c.RegisterAggregate(&aggHandler{b})
		case "process":
			c.RegisterProcess(&procHandler{b})
		case "integration":
			c.RegisterIntegration(&intHandler{b})
		case "projection":
			c.RegisterProjection(&projHandler{hbase: b})
		default:
			panic("harness: bad handler type " + h.T)
		}
	}
}

type hbase struct {
	r   *run
	cfg handlerCfg
	key string
}

func routesOf[R any](h handlerCfg) []R {
	var out []R
	for _, t := range h.C {
		out = append(out, typeByName[t].cons().(R))
	}
	for _, t := range h.P {
		out = append(out, typeByName[t].prod().(R))
	}
	return out
}

func (h *hbase) cb(w, m string, kv ...any) {
	e := ev{"e": "cb", "w": w, "h": h.cfg.N, "ht": h.cfg.T, "m": m}
	for i := 0; i < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
	h.r.add(e)
}

// finish logs the end of a callback and produces its outcome.
func (h *hbase) finish(w, m, end string, kv ...any) error {
	e := ev{"e": "cbx", "w": w, "h": h.cfg.N, "ht": h.cfg.T, "m": m, "res": "ok", "tok": ""}
	for i := 0; i < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
	switch end {
	case "":
		h.r.add(e)
		return nil
	case "err":
		t := h.r.tok("x")
		var err error = &tokErr{t}
		if c := h.r.opCtx; c != nil && t[len(t)-1] == '5' {
			// The errors of contexts, maybe that of this one.
			err, t = context.Canceled, "ctx"
			if h.r.dlErr {
				err, t = context.DeadlineExceeded, "deadline"
			}
			if c.Err() != nil {
				err, t = c.Err(), "ctx"
			}
			h.r.dlErr = !h.r.dlErr
		}
		e["res"], e["tok"] = "err", t
		h.r.add(e)
		return err
	case "panic":
		t := h.r.tok("p")
		e["res"], e["tok"] = "panic", t
		h.r.add(e)
		panic(&tokPanic{t})
	case "unexp":
		e["res"], e["tok"] = "unexp", ""
		h.r.add(e)
		panic(dogma.UnexpectedMessage)
	default:
		panic("harness: bad end " + end)
	}
}

// cxKey is the key of a value in the contexts of operations.
type cxKey struct{}

// cx describes the context that a handler has been given.
func (r *rec) cx(ctx context.Context) ev {
	v, _ := ctx.Value(cxKey{}).(string)
	d := []int64{}
	if t, ok := ctx.Deadline(); ok {
		d = r.tm(t)
	}
	return ev{"v": v, "dl": d, "done": ctx.Err() != nil}
}

var errCause = errors.New("<the cause of the cancellation>")

// withCancel gives a context that is cancelled with a cause.
func withCancel(ctx context.Context) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancelCause(ctx)
	return ctx, func() { cancel(errCause) }
}

// withDeadline gives a context a deadline that is never reached.
func withDeadline(ctx context.Context, s int64) (context.Context, context.CancelFunc) {
	if s == 0 {
		return ctx, func() {}
	}
	return context.WithDeadline(ctx, time.Now().Add(time.Duration(s)*time.Second))
}

// scope op plumbing.

type opener interface{ Log(string, ...any) }

func (h *hbase) so(o sop, m, i string, root func() []string, f func()) {
	e := ev{"e": "so", "o": o.O, "h": h.cfg.N, "ht": h.cfg.T, "m": m, "i": i, "p": o.P, "t": o.T, "b": bodyOf(o.P), "bad": o.Bad, "ok": true}
	b := ev{"e": "sob", "o": o.O, "h": h.cfg.N, "p": o.P, "t": o.T, "bad": o.Bad}
	if o.O == "sched" {
		b["at"] = h.r.tm(h.at(o))
	}
	h.r.add(b)
	var pv any
	func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(overflow); ok {
					panic(v)
				}
				pv = v
			}
		}()
		f()
	}()
	if root != nil {
		e["root"] = root()
	}
	if o.O == "sched" {
		e["at"] = h.r.tm(h.at(o))
	}
	if pv != nil {
		e["ok"] = false
		e["pan"] = h.r.pan(pv)
		e["re"] = o.Rec
	}
	h.r.add(e)
	// A panic of the application's own is never recovered by the handler.
	_, own := pv.(*tokPanic)
	if pv != nil && (own || !o.Rec) {
		h.r.add(ev{"e": "cbx", "w": "handle", "h": h.cfg.N, "ht": h.cfg.T, "m": m, "i": i, "res": "panic", "tok": "scope"})
		panic(pv)
	}
}

// dstZone stands for a zone with daylight saving time, and dstDays for the moments in
// 2020 at which its clocks change.
const dstZone = 100

var (
	dstDays = []int64{67*86400 + 7*3600, 305*86400 + 6*3600}

	newYork = func() *time.Location {
		l, err := time.LoadLocation("America/New_York")
		if err != nil {
			panic(err)
		}
		return l
	}()
)

func zone(n int) *time.Location {
	if n == 0 {
		return time.UTC
	}
	if n == dstZone {
		return newYork
	}
	return time.FixedZone("z"+strconv.Itoa(n), n*1800)
}

func off(t time.Time, o []int64) time.Time {
	if len(o) == 0 {
		return t
	}
	t = t.Add(time.Duration(o[0]) * time.Second)
	if len(o) > 1 {
		t = t.Add(time.Duration(o[1]))
	}
	return t
}

func (h *hbase) at(o sop) time.Time {
	if h.r.wall && len(o.At) > 0 && o.At[0] >= 0 && o.At[0] < 60 && (o.At[0] > 0 || len(o.At) > 1 && o.At[1] > 0) {
		// The engine reads the clock itself: stay clear of the boundary.
		o.At = []int64{o.At[0] + 60}
	}
	if len(o.At) > 2 {
		return time.Time{}.In(zone(o.TZ)) // as early as can be
	}
	return off(h.r.now, o.At).Round(0).In(zone(o.TZ))
}

// Aggregates.

type aggRoot struct {
	h       *aggHandler
	Applied []string
}

func (a *aggRoot) ApplyEvent(e dogma.Event) {
	k := keyOf(e)
	a.h.cb("apply", k)
	r := a.h.r
	r.sm.Lock()
	r.applied[k]++
	n := r.applied[k]
	r.sm.Unlock()
	if s := r.sc.script(k, "*apply"); s != nil && s.Apply != "" {
		if strings.Contains(","+s.Apply+",", ",panic"+strconv.Itoa(n)+",") {
			t := r.tok("p")
			a.h.cb("applypanic", k, "tok", t)
			panic(&tokPanic{t})
		}
	}
	a.Applied = append(a.Applied, k)
}

func (a *aggRoot) keys() []string {
	return append([]string{}, a.Applied...)
}

type aggHandler struct{ hbase }

func (h *aggHandler) Configure(c dogma.AggregateConfigurer) {
	c.Identity(h.cfg.N, h.key)
	c.Routes(routesOf[dogma.AggregateRoute](h.cfg)...)
	if h.cfg.Dis {
		c.Disable()
	}
}

func (h *aggHandler) New() dogma.AggregateRoot {
	r := h.r
	r.sm.Lock()
	nw := r.routed["*new|"+h.cfg.N]
	r.routed["*new|"+h.cfg.N] = ""
	r.sm.Unlock()
	h.cb("new", "", "nw", nw)
	switch nw {
	case "nil":
		return nil
	case "panic":
		_ = h.finish("new", "", "panic")
	}
	return &aggRoot{h: h}
}

func (h *aggHandler) RouteCommandToInstance(c dogma.Command) string {
	k := keyOf(c)
	s := h.r.sc.script(k, h.cfg.N)
	h.cb("route", k, "t", typeOf(c))
	_ = h.finish("route", k, s.RouteEnd, "i", s.Route, "yes", true)
	h.r.sm.Lock()
	h.r.routed["*new|"+h.cfg.N] = s.New
	h.r.sm.Unlock()
	return s.Route
}

func (h *aggHandler) HandleCommand(root dogma.AggregateRoot, sc dogma.AggregateCommandScope, c dogma.Command) {
	k := keyOf(c)
	s := h.r.sc.script(k, h.cfg.N)
	ar := root.(*aggRoot)
	i := sc.InstanceID()
	h.cb("handle", k, "t", typeOf(c), "i", i, "root", ar.keys(), "own", ar.h == h)
	h.r.holdOn()
	h.r.inside()
	for _, o := range s.Ops {
		switch o.O {
		case "rec":
			h.so(o, k, i, ar.keys, func() { sc.RecordEvent(mkMsg(o.T, o.P, bodyOf(o.P), badStr(o)).(dogma.Event)) })
		case "destroy":
			h.so(o, k, i, ar.keys, sc.Destroy)
		case "log":
			h.so(o, k, i, ar.keys, func() { logTo(sc.Log, o.P) })
		case "cancel":
			h.r.cancelNow()
		case "texec":
			h.r.texec(o)
		}
	}
	_ = h.finish("handle", k, s.End, "i", i)
}

// bodyOf returns the content of the message with the given key. For keys that
// begin with n it is what spec/TestGen.tla says.
func bodyOf(key string) string {
	if strings.HasPrefix(key, "n") {
		if c := key[len(key)-1]; c >= '0' && c <= '9' {
			return "b" + strconv.Itoa(int(c-'0')%3)
		}
		return "b0"
	}
	h := fnv.New32a()
	h.Write([]byte(key))
	// The last of many messages have a body that is rare.
	if _, s, ok := strings.Cut(key, "."); ok && len(s) > 2 && s[0] >= '1' && s[1] >= '0' && s[1] <= '9' {
		if v := h.Sum32() >> 3; v%30 != 0 {
			return "b" + strconv.Itoa(int(v)%2)
		}
		return "b2"
	}
	return "b" + strconv.Itoa(int(h.Sum32()>>3)%3)
}

func badStr(o sop) string {
	if o.Bad {
		return "invalid"
	}
	return ""
}

// cancelNow cancels the context of the current operation.
func (r *run) cancelNow() {
	if r.cancel != nil {
		r.cancel()
		r.add(ev{"e": "cancel"})
	}
}

// holdOn delays the handler if the scenario asks for it.
func (r *run) holdOn() {
	if r.holding.CompareAndSwap(true, false) {
		r.hold <- struct{}{}
		time.Sleep(4 * time.Millisecond)
	}
}

// Processes.

type procRoot struct {
	h    string
	Seen []string
	used int // how often the root has been given to the handler
}

type procHandler struct{ hbase }

func (h *procHandler) Configure(c dogma.ProcessConfigurer) {
	c.Identity(h.cfg.N, h.key)
	c.Routes(routesOf[dogma.ProcessRoute](h.cfg)...)
	if h.cfg.Dis {
		c.Disable()
	}
}

func (h *procHandler) New() dogma.ProcessRoot {
	r := h.r
	r.sm.Lock()
	nw := r.routed["*new|"+h.cfg.N]
	r.routed["*new|"+h.cfg.N] = ""
	r.sm.Unlock()
	h.cb("new", "", "nw", nw)
	switch nw {
	case "nil":
		return nil
	case "panic":
		_ = h.finish("new", "", "panic")
	}
	if h.cfg.Less {
		return dogma.StatelessProcessRoot
	}
	return &procRoot{h: h.cfg.N}
}

func (h *procHandler) RouteEventToInstance(ctx context.Context, e dogma.Event) (string, bool, error) {
	k := keyOf(e)
	s := h.r.sc.script(k, h.cfg.N)
	h.cb("route", k, "t", typeOf(e), "cx", h.r.cx(ctx))
	err := h.finish("route", k, s.RouteEnd, "i", s.Route, "yes", !s.RouteNo)
	if err != nil {
		return "", false, err
	}
	h.r.sm.Lock()
	h.r.routed["*new|"+h.cfg.N] = s.New
	h.r.sm.Unlock()
	if s.RouteNo {
		return "", false, nil
	}
	return s.Route, true, nil
}

type procScope interface {
	InstanceID() string
	End()
	ExecuteCommand(dogma.Command)
	ScheduleTimeout(dogma.Timeout, time.Time)
	Log(format string, args ...any)
}

func (h *procHandler) HandleEvent(ctx context.Context, root dogma.ProcessRoot, sc dogma.ProcessEventScope, e dogma.Event) error {
	return h.handle(ctx, root, sc, e, sc.RecordedAt(), "e")
}

func (h *procHandler) HandleTimeout(ctx context.Context, root dogma.ProcessRoot, sc dogma.ProcessTimeoutScope, m dogma.Timeout) error {
	return h.handle(ctx, root, sc, m, sc.ScheduledFor(), "t")
}

func (h *procHandler) handle(ctx context.Context, root dogma.ProcessRoot, sc procScope, m dogma.Message, at time.Time, kind string) error {
	k := keyOf(m)
	s := h.r.sc.script(k, h.cfg.N)
	pr, _ := root.(*procRoot)
	i := sc.InstanceID()
	seen, used := []string{"?"}, 0
	if pr != nil {
		seen, used = append([]string{}, pr.Seen...), pr.used
		pr.used++
	}
	h.cb("handle", k, "t", typeOf(m), "k", kind, "i", i, "root", seen, "own", pr == nil || pr.h == h.cfg.N, "at", h.r.tm(at), "less", pr == nil, "used", used > 0, "cx", h.r.cx(ctx))
	h.r.inside()
	for _, o := range s.Ops {
		switch o.O {
		case "exec":
			h.so(o, k, i, nil, func() { sc.ExecuteCommand(mkMsg(o.T, o.P, bodyOf(o.P), badStr(o)).(dogma.Command)) })
		case "sched":
			h.so(o, k, i, nil, func() { sc.ScheduleTimeout(mkMsg(o.T, o.P, bodyOf(o.P), badStr(o)).(dogma.Timeout), h.at(o)) })
		case "end":
			h.so(o, k, i, nil, sc.End)
		case "log":
			h.so(o, k, i, nil, func() { logTo(sc.Log, o.P) })
		case "cancel":
			h.r.cancelNow()
		case "texec":
			h.r.texec(o)
		}
	}
	if s.End == "" && pr != nil {
		pr.Seen = append(pr.Seen, k)
	}
	return h.finish("handle", k, s.End, "i", i, "k", kind, "cx", h.r.cx(ctx))
}

// Integrations.

type intHandler struct{ hbase }

func (h *intHandler) Configure(c dogma.IntegrationConfigurer) {
	c.Identity(h.cfg.N, h.key)
	c.Routes(routesOf[dogma.IntegrationRoute](h.cfg)...)
	if h.cfg.Dis {
		c.Disable()
	}
}

func (h *intHandler) HandleCommand(ctx context.Context, sc dogma.IntegrationCommandScope, c dogma.Command) error {
	k := keyOf(c)
	s := h.r.sc.script(k, h.cfg.N)
	h.cb("handle", k, "t", typeOf(c), "i", "", "cx", h.r.cx(ctx))
	h.r.holdOn()
	h.r.inside()
	for _, o := range s.Ops {
		switch o.O {
		case "rec":
			h.so(o, k, "", nil, func() { sc.RecordEvent(mkMsg(o.T, o.P, bodyOf(o.P), badStr(o)).(dogma.Event)) })
		case "log":
			h.so(o, k, "", nil, func() { logTo(sc.Log, o.P) })
		case "cancel":
			h.r.cancelNow()
		case "texec":
			h.r.texec(o)
		}
	}
	return h.finish("handle", k, s.End, "i", "", "cx", h.r.cx(ctx))
}

// Projections.

type projHandler struct {
	hbase
	curKey atomic.Pointer[string] // key of the event being handled
}

func (h *projHandler) Configure(c dogma.ProjectionConfigurer) {
	c.Identity(h.cfg.N, h.key)
	c.Routes(routesOf[dogma.ProjectionRoute](h.cfg)...)
	if h.cfg.Dis {
		c.Disable()
	}
}

func (h *projHandler) ResourceVersion(ctx context.Context, res []byte) ([]byte, error) {
	// The message is not an argument of this method: its key is that of the
	// latest message reported as being dispatched.
	k := h.r.curMsg()
	s := h.r.sc.script(k, h.cfg.N)
	h.curKey.Store(&k)
	v := h.r.stores[h.cfg.N][string(res)]
	if s.RV == "set" {
		v = "v"
	}
	h.cb("rv", k, "res", string(res), "cx", h.r.cx(ctx))
	end := s.RV
	if end == "set" {
		end = ""
	}
	if err := h.finish("rv", k, end, "ver", v); err != nil {
		return nil, err
	}
	return []byte(v), nil
}

func (h *projHandler) HandleEvent(ctx context.Context, res, cur, next []byte, sc dogma.ProjectionEventScope, e dogma.Event) (bool, error) {
	k := keyOf(e)
	s := h.r.sc.script(k, h.cfg.N)
	h.cb("hev", k, "t", typeOf(e), "res", string(res), "cur", string(cur), "next", hex(next), "at", h.r.tm(sc.RecordedAt()), "prim", sc.IsPrimaryDelivery(), "cx", h.r.cx(ctx))
	var gate chan struct{}
	if s.Comp != nil && h.r.sc.App.CDH {
		gate = h.r.gate(h.cfg.N + "|" + k)
	}
	for _, o := range s.Ops {
		switch o.O {
		case "log":
			h.so(o, k, "", nil, func() { logTo(sc.Log, o.P) })
		case "cancel":
			h.r.cancelNow()
		case "texec":
			h.r.texec(o)
		}
	}
	if gate != nil && s.Comp.Gate == "log" {
		// Hold handling open until the parallel compaction has logged.
		select {
		case <-gate:
		case <-time.After(300 * time.Millisecond):
		}
	}
	if s.End == "" && s.OK {
		h.r.stores[h.cfg.N][string(res)] = string(next)
	}
	if err := h.finish("hev", k, s.End, "ok", s.OK && s.End == "", "cx", h.r.cx(ctx)); err != nil {
		return false, err
	}
	return s.OK, nil
}

func hex(b []byte) string { return fmt.Sprintf("%x", b) }

func (h *projHandler) CloseResource(ctx context.Context, res []byte) error {
	k := ""
	if p := h.curKey.Load(); p != nil {
		k = *p
	}
	s := h.r.sc.script(k, h.cfg.N)
	h.cb("close", k, "res", string(res), "cx", h.r.cx(ctx))
	return h.finish("close", k, s.Close)
}

func (h *projHandler) Compact(ctx context.Context, sc dogma.ProjectionCompactScope) error {
	r := h.r
	var c *comp
	par := r.dispatching.Load()
	key := ""
	if par {
		if p := h.curKey.Load(); p != nil {
			key = *p
		}
		c = h.r.sc.script(key, h.cfg.N).Comp
	} else {
		r.sm.Lock()
		r.compN[h.cfg.N]++
		n := r.compN[h.cfg.N]
		r.sm.Unlock()
		c = r.sc.Comp[h.cfg.N+"#"+strconv.Itoa(n)]
		if c == nil && r.sc.lcmp != nil {
			c = r.sc.lcmp(h.cfg.N, n)
		}
	}
	if c == nil {
		c = &comp{}
	}
	h.cb("compact", key, "par", par, "now", r.tm(sc.Now()), "cx", r.cx(ctx))
	if c.Gate == "slow" {
		time.Sleep(3 * time.Millisecond)
	}
	for _, l := range c.Logs {
		if par {
			logTo(sc.Log, l)
			r.add(ev{"e": "clog", "h": h.cfg.N, "p": l})
		} else if l == "!cancel" {
			r.cancelNow()
		} else {
			h.so(sop{O: "log", P: l}, key, "", nil, func() { logTo(sc.Log, l) })
		}
	}
	if par && c.Gate == "log" {
		close(r.gate(h.cfg.N + "|" + key))
	}
	if par && c.Gate == "late" {
		time.Sleep(6 * time.Millisecond)
	}
	return h.finish("compact", key, c.End, "par", par)
}

func (r *run) gate(k string) chan struct{} {
	r.sm.Lock()
	defer r.sm.Unlock()
	g, ok := r.gates[k]
	if !ok {
		g = make(chan struct{})
		r.gates[k] = g
	}
	return g
}

func (r *run) curMsg() string {
	if p := r.cur.Load(); p != nil {
		return *p
	}
	return "?"
}

// Facts.

func (r *run) env(e *envelope.Envelope) any {
	if e == nil {
		return ev{"id": "", "m": ""}
	}
	o := ev{
		"id": e.MessageID, "ca": e.CausationID, "co": e.CorrelationID,
		"m": keyOf(e.Message), "t": typeOf(e.Message), "cr": r.tm(e.CreatedAt),
		"sc": []int64{}, "oh": "", "ot": "", "oi": "",
	}
	_, timeout := e.Message.(dogma.Timeout)
	if timeout || !e.ScheduledFor.IsZero() {
		o["sc"] = r.tm(e.ScheduledFor)
	}
	if e.Origin != nil {
		o["oh"] = e.Origin.Handler.Identity().Name
		o["ot"] = e.Origin.HandlerType.String()
		o["oi"] = e.Origin.InstanceID
	}
	return o
}

func rootKeys(x any) []string {
	switch x := x.(type) {
	case *aggRoot:
		if x == nil {
			return []string{"?nil"}
		}
		return x.keys()
	case *procRoot:
		if x == nil {
			return []string{"?nil"}
		}
		return append([]string{}, x.Seen...)
	}
	return []string{"?"}
}

// errs decomposes an error into the errors of the harness's handlers.
func (r *run) errs(err error) []ev {
	out := []ev{}
	for _, e := range multierr.Errors(err) {
		x := ev{"h": "", "ht": "", "tok": "?"}
		var te *tokErr
		switch {
		case errors.As(e, &te):
			x["tok"] = te.tok
		case errors.Is(e, context.Canceled):
			x["tok"] = "ctx"
		case errors.Is(e, context.DeadlineExceeded):
			x["tok"] = "deadline"
		}
		txt := e.Error()
		for _, h := range r.sc.App.Hs {
			if strings.HasPrefix(txt, h.N+" "+h.T+": ") {
				x["h"], x["ht"] = h.N, h.T
			}
		}
		out = append(out, x)
	}
	return out
}

func (r *run) pan(v any) ev {
	switch x := v.(type) {
	case *tokPanic:
		return ev{"k": "tok", "tok": x.tok, "h": "", "ht": "", "meth": "", "m": ""}
	case string:
		return ev{"k": "str", "tok": "", "h": "", "ht": "", "meth": "", "m": "", "txt": x}
	}
	if v == any(dogma.UnexpectedMessage) {
		return ev{"k": "rawum", "tok": "", "h": "", "ht": "", "meth": "", "m": ""}
	}
	tn := fmt.Sprintf("%T", v)
	o := ev{"k": "other", "tok": "", "h": "", "ht": "", "meth": "", "m": "", "txt": fmt.Sprint(v)}
	switch {
	case strings.HasSuffix(tn, "UnexpectedBehavior"):
		o["k"] = "ub"
	case strings.HasSuffix(tn, "UnexpectedMessage"):
		o["k"] = "um"
	}
	rv := reflect.Indirect(reflect.ValueOf(v))
	if rv.Kind() == reflect.Struct {
		if f := rv.FieldByName("Handler"); f.IsValid() && f.CanInterface() {
			if h, ok := f.Interface().(configkit.RichHandler); ok && h != nil {
				o["h"], o["ht"] = h.Identity().Name, h.HandlerType().String()
			}
		}
		if f := rv.FieldByName("Method"); f.IsValid() && f.Kind() == reflect.String {
			o["meth"] = f.String()
		}
		if f := rv.FieldByName("Message"); f.IsValid() && f.CanInterface() {
			if m, ok := f.Interface().(dogma.Message); ok && m != nil {
				o["m"] = keyOf(m)
			}
		}
	}
	return o
}

func logTo(log func(string, ...any), p string) {
	f, a := logArgs(p)
	log(f, a...)
}

func logText(f string, a []any) string { return fmt.Sprintf(f, a...) }

func (r *run) factEv(f fact.Fact) ev {
	o := ev{"e": "f", "h": "", "i": "", "m": "", "v": ev{"id": "", "m": ""}, "pv": ev{"id": "", "m": ""}, "root": []string{}, "errs": []ev{}, "rsn": "", "now": []int64{}, "p": "", "etx": ""}
	v := func(e *envelope.Envelope) {
		o["v"] = r.env(e)
		if e != nil {
			o["m"] = keyOf(e.Message)
		}
	}
	hn := func(h configkit.RichHandler) { o["h"] = h.Identity().Name }
	switch x := f.(type) {
	case fact.DispatchCycleBegun:
		o["f"] = "dcb"
		v(x.Envelope)
		o["now"] = r.tm(x.EngineTime)
		o["en"], o["byname"] = r.enabled(x.EnabledHandlerTypes, x.EnabledHandlers), sorted(x.EnabledHandlers)
	case fact.DispatchCycleCompleted:
		o["f"] = "dcc"
		v(x.Envelope)
		o["errs"] = r.errs(x.Error)
		o["en"] = r.enabled(x.EnabledHandlerTypes, x.EnabledHandlers)
	case fact.DispatchBegun:
		o["f"] = "db"
		v(x.Envelope)
	case fact.DispatchCompleted:
		o["f"] = "dc"
		v(x.Envelope)
		o["errs"] = r.errs(x.Error)
	case fact.HandlingBegun:
		o["f"] = "hb"
		hn(x.Handler)
		v(x.Envelope)
	case fact.HandlingCompleted:
		o["f"] = "hc"
		hn(x.Handler)
		v(x.Envelope)
		o["errs"], o["etx"] = r.errs(x.Error), errText(x.Error)
	case fact.HandlingSkipped:
		o["f"] = "hs"
		hn(x.Handler)
		v(x.Envelope)
		o["rsn"] = string(x.Reason)
	case fact.TickCycleBegun:
		o["f"] = "tcb"
		o["now"] = r.tm(x.EngineTime)
		o["en"], o["byname"] = r.enabled(x.EnabledHandlerTypes, x.EnabledHandlers), sorted(x.EnabledHandlers)
	case fact.TickCycleCompleted:
		o["f"] = "tcc"
		o["errs"] = r.errs(x.Error)
		o["en"] = r.enabled(x.EnabledHandlerTypes, x.EnabledHandlers)
	case fact.TickBegun:
		o["f"] = "tb"
		hn(x.Handler)
	case fact.TickCompleted:
		o["f"] = "tc"
		hn(x.Handler)
		o["errs"], o["etx"] = r.errs(x.Error), errText(x.Error)
	case fact.TickSkipped:
		o["f"] = "ts"
		hn(x.Handler)
		o["rsn"] = string(x.Reason)
	case fact.AggregateInstanceLoaded:
		o["f"] = "aload"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
	case fact.AggregateInstanceNotFound:
		o["f"] = "anf"
		hn(x.Handler)
		o["i"] = x.InstanceID
		v(x.Envelope)
	case fact.AggregateInstanceCreated:
		o["f"] = "acreate"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
	case fact.AggregateInstanceDestroyed:
		o["f"] = "adestroy"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
	case fact.AggregateInstanceDestructionReverted:
		o["f"] = "arevert"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
	case fact.EventRecordedByAggregate:
		o["f"] = "arec"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
		o["pv"] = r.env(x.EventEnvelope)
	case fact.MessageLoggedByAggregate:
		o["f"] = "log"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
		o["p"] = logText(x.LogFormat, x.LogArguments)
	case fact.ProcessInstanceLoaded:
		o["f"] = "pload"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
	case fact.ProcessEventIgnored:
		o["f"] = "peign"
		hn(x.Handler)
		v(x.Envelope)
	case fact.ProcessTimeoutIgnored:
		o["f"] = "ptign"
		hn(x.Handler)
		o["i"] = x.InstanceID
		v(x.Envelope)
	case fact.ProcessInstanceNotFound:
		o["f"] = "pnf"
		hn(x.Handler)
		o["i"] = x.InstanceID
		v(x.Envelope)
	case fact.ProcessInstanceBegun:
		o["f"] = "pbegin"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
	case fact.ProcessInstanceEnded:
		o["f"] = "pend"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
	case fact.ProcessInstanceEndingReverted:
		o["f"] = "prevert"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
	case fact.CommandExecutedByProcess:
		o["f"] = "pexec"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
		o["pv"] = r.env(x.CommandEnvelope)
	case fact.TimeoutScheduledByProcess:
		o["f"] = "psched"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
		o["pv"] = r.env(x.TimeoutEnvelope)
	case fact.MessageLoggedByProcess:
		o["f"] = "log"
		hn(x.Handler)
		o["i"], o["root"] = x.InstanceID, rootKeys(x.Root)
		v(x.Envelope)
		o["p"] = logText(x.LogFormat, x.LogArguments)
	case fact.EventRecordedByIntegration:
		o["f"] = "irec"
		hn(x.Handler)
		v(x.Envelope)
		o["pv"] = r.env(x.EventEnvelope)
	case fact.MessageLoggedByIntegration:
		o["f"] = "log"
		hn(x.Handler)
		v(x.Envelope)
		o["p"] = logText(x.LogFormat, x.LogArguments)
	case fact.ProjectionCompactionBegun:
		o["f"] = "compb"
		hn(x.Handler)
	case fact.ProjectionCompactionCompleted:
		o["f"] = "compc"
		hn(x.Handler)
		o["errs"], o["etx"] = r.errs(x.Error), errText(x.Error)
	case fact.MessageLoggedByProjection:
		o["f"] = "log"
		hn(x.Handler)
		v(x.Envelope)
		o["p"] = logText(x.LogFormat, x.LogArguments)
	default:
		o["f"] = fmt.Sprintf("?%T", f)
	}
	return o
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// sorted returns the handlers that are enabled or disabled individually.
func sorted(hs map[string]bool) []any {
	var ns []string
	for n := range hs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	out := []any{}
	for _, n := range ns {
		out = append(out, []any{n, hs[n]})
	}
	return out
}

func (r *run) enabled(ty map[configkit.HandlerType]bool, hs map[string]bool) ev {
	t := ev{}
	for k, v := range ty {
		t[k.String()] = v
	}
	h := []any{}
	for _, x := range r.sc.App.Hs {
		if v, ok := hs[x.N]; ok {
			h = append(h, []any{x.N, v})
		}
	}
	return ev{"ty": t, "hs": h}
}

// observer records the facts of one operation. The first one writes them to the
// trace, the others only count and hash them.
type observer struct {
	r   *run
	idx int
	op  int
}

func (o *observer) Notify(f fact.Fact) {
	r := o.r
	if n := r.notifying.Add(1); n > 1 {
		r.add(ev{"e": "overlap"})
	}
	defer r.notifying.Add(-1)
	e := r.factEv(f)
	h := fnv.New64a()
	h.Write(mustJSON(e))
	r.sm.Lock()
	r.obsN[o.idx]++
	r.obsH[o.idx] = r.obsH[o.idx]*1099511628211 ^ h.Sum64()
	r.sm.Unlock()
	if o.idx > 0 {
		return
	}
	switch x := f.(type) {
	case fact.DispatchBegun:
		k := keyOf(x.Envelope.Message)
		r.cur.Store(&k)
		r.dispatching.Store(true)
	case fact.DispatchCompleted:
		r.dispatching.Store(false)
	}
	r.add(e)
	if withLog {
		fact.NewLogger(func(s string) { r.add(logEv(s)) }).Notify(f)
	}
}

// slowObserver widens the window in which an overlapping notification would be
// noticed.
type slowObserver struct{ r *run }

func (o *slowObserver) Notify(f fact.Fact) {
	r := o.r
	if n := r.notifying.Add(1); n > 1 {
		r.add(ev{"e": "overlap"})
	}
	defer r.notifying.Add(-1)
	if _, ok := f.(fact.MessageLoggedByProjection); ok {
		time.Sleep(4 * time.Millisecond)
	}
}

// Operations.

func (r *run) opOptions(o opCfg) []engine.OperationOption {
	var out []engine.OperationOption
	for _, x := range o.Opts {
		l := x.([]any)
		k, n, b := l[0].(string), l[1].(string), l[2].(bool)
		switch k {
		case "h":
			out = append(out, engine.EnableHandler(n, b))
		case "ty":
			switch n {
			case "aggregate":
				out = append(out, engine.EnableAggregates(b))
			case "process":
				out = append(out, engine.EnableProcesses(b))
			case "integration":
				out = append(out, engine.EnableIntegrations(b))
			case "projection":
				out = append(out, engine.EnableProjections(b))
			}
		}
	}
	if o.Now != nil {
		// The position of the time option among the others must not matter.
		i := 0
		if len(out) > 0 {
			i = len(o.M) % (len(out) + 1)
		}
		out = append(out[:i:i], append([]engine.OperationOption{engine.WithCurrentTime(r.now)}, out[i:]...)...)
	}
	return out
}

func (r *run) appEv() ev {
	hs := []ev{}
	for _, h := range r.sc.App.Hs {
		hs = append(hs, ev{"n": h.N, "t": h.T, "c": nn(h.C), "p": nn(h.P), "dis": h.Dis, "less": h.Less})
	}
	return ev{"e": "app", "hs": hs, "cdh": r.sc.App.CDH, "resets": r.sc.App.Resets, "layer": "engine"}
}

func nn(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func (r *run) newEngine() *engine.Engine {
	var opts []engine.Option
	if r.sc.App.CDH {
		opts = append(opts, engine.EnableProjectionCompactionDuringHandling(true))
	}
	for i := 0; i < r.sc.App.Resets; i++ {
		opts = append(opts, engine.WithResetter(func() { r.add(ev{"e": "rst", "n": i + 1}) }))
	}
	return engine.MustNew(r.config(), opts...)
}

func (r *run) config() configkit.RichApplication {
	if r.cfg != nil {
		return r.cfg
	}
	return configkit.FromApplication(app{r})
}

// inside is called while a handler is handling a message.
func (r *run) inside() {
	if r.meanwhile != nil {
		r.meanwhile()
	}
}

// execute runs the scenario on a new engine.
func (r *run) execute() {
	defer r.guard()
	r.add(r.appEv())
	e := r.newEngine()
	for i, o := range r.sc.Ops {
		r.opN = i
		r.doOp(e, o)
		if r.over || r.stuck {
			return
		}
	}
	r.add(ev{"e": "end"})
}

func (r *run) doOp(e *engine.Engine, o opCfg) {
	r.cur.Store(nil)
	r.dispatching.Store(false)
	if o.Op == "reset" {
		r.add(ev{"e": "op", "op": "reset"})
		for _, h := range r.sc.App.Hs {
			r.stores[h.N] = map[string]string{}
		}
		if !watch(e.Reset) {
			r.add(ev{"e": "stuck"})
			r.stuck = true
			return
		}
		r.add(ev{"e": "ret", "op": "reset", "res": "ok", "errs": []ev{}, "pan": ev{}, "can": false})
		return
	}

	tag := "op" + strconv.Itoa(r.opN)
	ctx, stop := withDeadline(context.WithValue(context.Background(), cxKey{}, tag), o.Dl)
	defer stop()
	r.cancel = nil
	switch o.Ctx {
	case "can":
		ctx, r.cancel = withCancel(ctx)
		defer r.cancel()
	case "pre":
		c, cancel := withCancel(ctx)
		cancel()
		ctx = c
	}

	r.opCtx = ctx
	wall := o.Now == nil
	r.wall = wall
	if wall {
		r.now = time.Now()
	} else {
		r.now = off(base, o.Now).In(zone(o.TZ))
	}

	opts := r.opOptions(o)
	r.obsN, r.obsH = []int{0}, []uint64{0}
	opts = append(opts, engine.WithObserver(&observer{r: r}))
	for i := 1; i <= o.Obs; i++ {
		r.obsN, r.obsH = append(r.obsN, 0), append(r.obsH, 0)
		opts = append(opts, engine.WithObserver(&observer{r: r, idx: i}))
	}
	if o.Obs > 0 && r.sc.App.CDH {
		opts = append(opts, engine.WithObserver(&slowObserver{r}))
	}
	if o.Obs%2 == 1 && !wall {
		// Put the additional observers before some of the other options.
		opts = append(opts[len(opts)-1:len(opts):len(opts)], opts[:len(opts)-1]...)
	}

	kind := ""
	if o.Op == "dispatch" {
		kind = typeByName[o.T].kind
	}
	oo := o.Opts
	if oo == nil {
		oo = []any{}
	}
	oe := ev{"e": "op", "op": o.Op, "m": o.M, "t": o.T, "k": kind, "bad": o.Bad,
		"now": r.tm(r.now), "wall": wall, "opts": oo, "ctx": o.Ctx, "obs": o.Obs, "cx": r.cx(ctx), "via": o.Via}
	r.add(oe)

	re := ev{"e": "ret", "op": o.Op, "res": "ok", "errs": []ev{}, "pan": ev{"k": ""}}
	if !watch(func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(overflow); ok {
					return
				}
				re["res"] = "panic"
				re["pan"] = r.pan(v)
			}
		}()
		var err error
		if o.Op == "dispatch" {
			b := ""
			if o.Bad {
				b = "invalid"
			}
			m := mkMsg(o.T, o.M, bodyOf(o.M), b)
			if c, ok := m.(dogma.Command); ok && o.Via {
				err = engine.CommandExecutor{Engine: e, Options: opts}.ExecuteCommand(ctx, c)
			} else {
				err = e.Dispatch(ctx, m, opts...)
			}
		} else {
			err = e.Tick(ctx, opts...)
		}
		if err != nil {
			re["res"] = "err"
			re["errs"] = r.errs(err)
		}
	}) {
		r.add(ev{"e": "stuck"})
		r.stuck = true
		return
	}
	if r.over {
		return
	}
	re["hi"] = r.tm(time.Now())
	re["can"] = ctx.Err() != nil
	if r.notifying.Load() != 0 {
		r.add(ev{"e": "overlap"})
	}
	obs := []any{}
	r.sm.Lock()
	for i := range r.obsN {
		obs = append(obs, fmt.Sprintf("%d:%x", r.obsN[i], r.obsH[i]))
	}
	r.sm.Unlock()
	re["seen"] = obs
	r.add(re)
}
