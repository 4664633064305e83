package main

import (
	"context"
	"fmt"
	"io"
	"path"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/location"
)

// A blame scenario makes the system complain about code, or say where code is,
// that is called in various ways.

type blameProg struct {
	W      string   `json:"w"`      // what is complained about
	Fault  string   `json:"fault"`  // type, valid: what is wrong with the message
	Frames []string `json:"frames"` // how the code in question is called
}

type blameScenario struct {
	ID    string      `json:"id"`
	Progs []blameProg `json:"progs"`
}

// prog is a program in execution.
type prog struct {
	*rec
	blameProg
	n    int
	leaf string // what the innermost function does
	k    int    // how many functions have been called
	rs   interface{ RecordEvent(dogma.Event) }
	ps   interface {
		ExecuteCommand(dogma.Command)
		ScheduleTimeout(dogma.Timeout, time.Time)
	}
	log func(string, ...any)
	ev  dogma.Event
	cmd dogma.Command
	tm  dogma.Timeout
	act testkit.Action
	um  any // dogma.UnexpectedMessage
}

func site(skip int) ev {
	pc := make([]uintptr, 1)
	runtime.Callers(skip+2, pc)
	f, _ := runtime.CallersFrames(pc).Next()
	return ev{"fn": f.Function, "file": path.Base(f.File), "line": f.Line}
}

// at records that the next thing done in this line is to make a call, or to
// panic.
func (p *prog) at(k string) *prog {
	e := site(1)
	e["e"], e["k"] = "at", k
	p.add(e)
	return p
}

func (p *prog) val(v any) any { return v }

// method records that it is called by a method, and where that begins.
func (p *prog) method(w string) {
	pc := make([]uintptr, 1)
	runtime.Callers(2, pc)
	f, _ := runtime.CallersFrames(pc).Next()
	fn := runtime.FuncForPC(f.Entry)
	file, l := fn.FileLine(fn.Entry())
	p.add(ev{"e": "at", "k": w, "fn": fn.Name(), "file": path.Base(file), "line": l})
}

// op is what the current function does.
func (p *prog) op() string {
	if p.k < len(p.Frames)-1 {
		return ""
	}
	return p.leaf
}

// next calls the next function.
func (p *prog) next() {
	p.k++
	f := "fn"
	if p.k < len(p.Frames) {
		f = p.Frames[p.k]
	}
	p.frame(f)
}

func (p *prog) frame(f string) {
	switch f {
	case "gen":
		genericFrame[x0](p)
	case "meth":
		(&frameOwner{}).method(p)
	case "clo":
		closureFrame(p)
	case "defer":
		deferFrame(p)
	case "ok":
		okFrame(p)
	case "rethrow":
		rethrowFrame(p)
	default:
		plainFrame(p)
	}
}

func (p *prog) run(leaf string) {
	p.leaf, p.k = leaf, -1
	p.next()
}

type frameOwner struct{}

func plainFrame(p *prog) {
	switch p.op() {
	case "rec":
		p.at("call").rs.RecordEvent(p.ev)
	case "cmd":
		p.at("call").ps.ExecuteCommand(p.cmd)
	case "tm":
		p.at("call").ps.ScheduleTimeout(p.tm, base)
	case "pan":
		panic(p.at("pan").um)
	case "acall":
		p.at("call").act = testkit.Call(func() {})
	case "aexec":
		p.at("call").act = testkit.ExecuteCommand(Cmd[x0]{Key: "a"})
	case "arecv":
		p.at("call").act = testkit.RecordEvent(Ev[x0]{Key: "a"})
	case "aadv":
		p.at("call").act = testkit.AdvanceTime(testkit.ByDuration(time.Hour))
	default:
		p.next()
	}
}

func genericFrame[T any](p *prog) {
	var _ T
	switch p.op() {
	case "rec":
		p.at("call").rs.RecordEvent(p.ev)
	case "cmd":
		p.at("call").ps.ExecuteCommand(p.cmd)
	case "tm":
		p.at("call").ps.ScheduleTimeout(p.tm, base)
	case "pan":
		panic(p.at("pan").um)
	case "acall":
		p.at("call").act = testkit.Call(func() {})
	case "aexec":
		p.at("call").act = testkit.ExecuteCommand(Cmd[x0]{Key: "a"})
	case "arecv":
		p.at("call").act = testkit.RecordEvent(Ev[x0]{Key: "a"})
	case "aadv":
		p.at("call").act = testkit.AdvanceTime(testkit.ByDuration(time.Hour))
	default:
		p.next()
	}
}

func (*frameOwner) method(p *prog) {
	switch p.op() {
	case "rec":
		p.at("call").rs.RecordEvent(p.ev)
	case "cmd":
		p.at("call").ps.ExecuteCommand(p.cmd)
	case "tm":
		p.at("call").ps.ScheduleTimeout(p.tm, base)
	case "pan":
		panic(p.at("pan").um)
	case "acall":
		p.at("call").act = testkit.Call(func() {})
	case "aexec":
		p.at("call").act = testkit.ExecuteCommand(Cmd[x0]{Key: "a"})
	case "arecv":
		p.at("call").act = testkit.RecordEvent(Ev[x0]{Key: "a"})
	case "aadv":
		p.at("call").act = testkit.AdvanceTime(testkit.ByDuration(time.Hour))
	default:
		p.next()
	}
}

func closureFrame(p *prog) {
	fn := func() {
		switch p.op() {
		case "rec":
			p.at("call").rs.RecordEvent(p.ev)
		case "cmd":
			p.at("call").ps.ExecuteCommand(p.cmd)
		case "tm":
			p.at("call").ps.ScheduleTimeout(p.tm, base)
		case "pan":
			panic(p.at("pan").um)
		case "acall":
			p.at("call").act = testkit.Call(func() {})
		case "aexec":
			p.at("call").act = testkit.ExecuteCommand(Cmd[x0]{Key: "a"})
		case "arecv":
			p.at("call").act = testkit.RecordEvent(Ev[x0]{Key: "a"})
		case "aadv":
			p.at("call").act = testkit.AdvanceTime(testkit.ByDuration(time.Hour))
		default:
			p.next()
		}
	}
	fn()
}

func deferFrame(p *prog) {
	defer func() {
		switch p.op() {
		case "rec":
			p.at("call").rs.RecordEvent(p.ev)
		case "cmd":
			p.at("call").ps.ExecuteCommand(p.cmd)
		case "tm":
			p.at("call").ps.ScheduleTimeout(p.tm, base)
		case "pan":
			panic(p.at("pan").um)
		case "acall":
			p.at("call").act = testkit.Call(func() {})
		case "aexec":
			p.at("call").act = testkit.ExecuteCommand(Cmd[x0]{Key: "a"})
		case "arecv":
			p.at("call").act = testkit.RecordEvent(Ev[x0]{Key: "a"})
		case "aadv":
			p.at("call").act = testkit.AdvanceTime(testkit.ByDuration(time.Hour))
		default:
			p.next()
		}
	}()
}

// okFrame makes a call that is in order before it goes on.
func okFrame(p *prog) {
	if p.log != nil {
		p.at("call").log("fine")
	}
	switch p.op() {
	case "rec":
		p.at("call").rs.RecordEvent(p.ev)
	case "cmd":
		p.at("call").ps.ExecuteCommand(p.cmd)
	case "tm":
		p.at("call").ps.ScheduleTimeout(p.tm, base)
	case "pan":
		panic(p.at("pan").um)
	case "acall":
		p.at("call").act = testkit.Call(func() {})
	case "aexec":
		p.at("call").act = testkit.ExecuteCommand(Cmd[x0]{Key: "a"})
	case "arecv":
		p.at("call").act = testkit.RecordEvent(Ev[x0]{Key: "a"})
	case "aadv":
		p.at("call").act = testkit.AdvanceTime(testkit.ByDuration(time.Hour))
	default:
		p.next()
	}
}

// rethrowFrame panics again with what it recovers.
func rethrowFrame(p *prog) {
	defer func() {
		if v := recover(); v != nil {
			panic(p.at("again").val(v))
		}
	}()
	switch p.op() {
	case "rec":
		p.at("call").rs.RecordEvent(p.ev)
	case "cmd":
		p.at("call").ps.ExecuteCommand(p.cmd)
	case "tm":
		p.at("call").ps.ScheduleTimeout(p.tm, base)
	case "pan":
		panic(p.at("pan").um)
	case "acall":
		p.at("call").act = testkit.Call(func() {})
	case "aexec":
		p.at("call").act = testkit.ExecuteCommand(Cmd[x0]{Key: "a"})
	case "arecv":
		p.at("call").act = testkit.RecordEvent(Ev[x0]{Key: "a"})
	case "aadv":
		p.at("call").act = testkit.AdvanceTime(testkit.ByDuration(time.Hour))
	default:
		p.next()
	}
}

type blameRun struct {
	*rec
	sc *blameScenario
	p  *prog
}

func (r *blameRun) is(w ...string) bool {
	for _, x := range w {
		if r.p.W == x {
			return true
		}
	}
	return false
}

func (r *blameRun) key(k string) string { return k + strconv.Itoa(r.p.n) }
func (r *blameRun) inst() string        { return r.key("i") }

type blameApp struct{ r *blameRun }

func (a blameApp) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("app", handlerKey(999))
	c.RegisterAggregate(&blameAgg{a.r})
	c.RegisterProcess(&blameProc{a.r})
	c.RegisterIntegration(&blameInt{a.r})
	c.RegisterProjection(&blameProj{a.r})
}

type blameAgg struct{ r *blameRun }
type blameRoot struct {
	r    *blameRun
	load bool
}

func (h *blameAgg) Configure(c dogma.AggregateConfigurer) {
	c.Identity("agg", handlerKey(1))
	c.Routes(dogma.HandlesCommand[Cmd[x0]](), dogma.RecordsEvent[Ev[x2]]())
}

func (h *blameAgg) New() dogma.AggregateRoot {
	h.r.p.method("new")
	if h.r.is("nila") {
		return nil
	}
	return &blameRoot{r: h.r}
}

func (h *blameAgg) RouteCommandToInstance(dogma.Command) string {
	h.r.p.method("route")
	if h.r.is("uaroute") {
		h.r.p.run("pan")
	}
	if h.r.is("emptya") {
		return ""
	}
	return h.r.inst()
}

func (h *blameAgg) HandleCommand(_ dogma.AggregateRoot, s dogma.AggregateCommandScope, _ dogma.Command) {
	p := h.r.p
	p.rs, p.log = s, s.Log
	switch {
	case h.r.is("arec"):
		p.run("rec")
	case h.r.is("uahandle"):
		p.run("pan")
	case h.r.is("uaapply", "uaload"):
		for _, k := range []string{"a", "e", "z"} {
			s.RecordEvent(Ev[x2]{Key: h.r.key(k)})
		}
	}
}

func (r *blameRoot) ApplyEvent(e dogma.Event) {
	if keyOf(e) != r.r.key("e") {
		return
	}
	if r.r.is("uaapply") || r.r.is("uaload") && r.r.p.leaf == "load" {
		r.r.p.run("pan")
	}
}

type blameProc struct{ r *blameRun }

func (h *blameProc) Configure(c dogma.ProcessConfigurer) {
	c.Identity("proc", handlerKey(2))
	c.Routes(dogma.HandlesEvent[Ev[x0]](), dogma.ExecutesCommand[Cmd[x1]](), dogma.SchedulesTimeout[Tm[x0]]())
}

func (h *blameProc) New() dogma.ProcessRoot {
	h.r.p.method("new")
	if h.r.is("nilp") {
		return nil
	}
	return &loopRoot{}
}

func (h *blameProc) RouteEventToInstance(context.Context, dogma.Event) (string, bool, error) {
	h.r.p.method("route")
	if h.r.is("uproute") {
		h.r.p.run("pan")
	}
	if h.r.is("emptyp") {
		return "", true, nil
	}
	return h.r.inst(), !h.r.is("uj"), nil
}

func (h *blameProc) HandleEvent(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, _ dogma.Event) error {
	p := h.r.p
	p.ps, p.log = s, s.Log
	switch {
	case h.r.is("pcmd"):
		p.run("cmd")
	case h.r.is("ptm"):
		p.run("tm")
	case h.r.is("upevent"):
		p.run("pan")
	case h.r.is("tcmd", "ttm", "uptimeout"):
		s.ScheduleTimeout(Tm[x0]{Key: h.r.key("t")}, base)
	}
	return nil
}

func (h *blameProc) HandleTimeout(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, _ dogma.Timeout) error {
	p := h.r.p
	p.ps, p.log = s, s.Log
	switch {
	case h.r.is("tcmd"):
		p.run("cmd")
	case h.r.is("ttm"):
		p.run("tm")
	case h.r.is("uptimeout"):
		p.run("pan")
	}
	return nil
}

type blameInt struct{ r *blameRun }

func (h *blameInt) Configure(c dogma.IntegrationConfigurer) {
	c.Identity("int", handlerKey(3))
	c.Routes(dogma.HandlesCommand[Cmd[x1]](), dogma.RecordsEvent[Ev[x3]]())
}

func (h *blameInt) HandleCommand(_ context.Context, s dogma.IntegrationCommandScope, _ dogma.Command) error {
	p := h.r.p
	p.rs, p.log = s, s.Log
	switch {
	case h.r.is("irec"):
		p.run("rec")
	case h.r.is("ui"):
		p.run("pan")
	}
	return nil
}

type blameProj struct{ r *blameRun }

func (h *blameProj) Configure(c dogma.ProjectionConfigurer) {
	c.Identity("proj", handlerKey(4))
	c.Routes(dogma.HandlesEvent[Ev[x4]]())
}

func (h *blameProj) ResourceVersion(context.Context, []byte) ([]byte, error)     { return nil, nil }
func (h *blameProj) CloseResource(context.Context, []byte) error                 { return nil }
func (h *blameProj) Compact(context.Context, dogma.ProjectionCompactScope) error { return nil }
func (h *blameProj) HandleEvent(_ context.Context, _, _, _ []byte, s dogma.ProjectionEventScope, _ dogma.Event) (bool, error) {
	h.r.p.log = s.Log
	if h.r.is("uj") {
		h.r.p.run("pan")
	}
	return true, nil
}

// complaint describes what is in a panic value.
func (r *blameRun) complaint(v any) {
	e := ev{"e": "blame", "k": "other", "h": "", "ht": "", "meth": "", "m": "", "impl": "", "has": false, "fn": "", "file": "", "line": 0}
	switch tn := fmt.Sprintf("%T", v); {
	case v == nil:
		e["k"] = "none"
	case strings.HasSuffix(tn, "UnexpectedBehavior"):
		e["k"] = "ub"
	case strings.HasSuffix(tn, "UnexpectedMessage"):
		e["k"] = "um"
	}
	rv := reflect.Indirect(reflect.ValueOf(v))
	for i := 0; rv.Kind() == reflect.Struct && i < rv.NumField(); i++ {
		f := rv.Field(i)
		if !f.CanInterface() {
			continue
		}
		switch x := f.Interface().(type) {
		case location.Location:
			e["has"], e["fn"], e["file"], e["line"] = true, x.Func, path.Base(x.File), x.Line
		case configkit.RichHandler:
			e["h"], e["ht"] = x.Identity().Name, x.HandlerType().String()
		case dogma.Message:
			e["m"] = keyOf(x)
		case *blameAgg, *blameRoot, *blameProc, *blameInt, *blameProj:
			e["impl"] = strings.TrimPrefix(fmt.Sprintf("%T", x), "*main.")
		case string:
			if rv.Type().Field(i).Name == "Method" {
				e["meth"] = x
			}
		}
	}
	r.add(e)
}

// where says that the system gives a place.
func (r *blameRun) where(k, fn, file string, line int) {
	r.add(ev{"e": "blame", "k": k, "h": "", "ht": "", "meth": "", "m": "", "impl": "", "has": true, "fn": fn, "file": path.Base(file), "line": line})
}

type blameT struct{ log strings.Builder }

func (t *blameT) Log(a ...any)            { fmt.Fprintln(&t.log, a...) }
func (t *blameT) Logf(f string, a ...any) { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *blameT) Fatal(a ...any)          { t.Log(a...) }
func (t *blameT) FailNow()                {}
func (t *blameT) Helper()                 {}
func (t *blameT) Failed() bool            { return false }

var nearPlace = regexp.MustCompile(`near (?:the )?([^\s:]+):(\d+)`)

var namedLines [2]int // where the functions below are

// noteLine remembers where it is called.
func noteLine(x int) error {
	if namedLines[x] == 0 {
		_, _, namedLines[x], _ = runtime.Caller(1)
	}
	return nil
}

func namedEventFunc(Ev[x2]) error    { return noteLine(0) }
func namedCommandFunc(Cmd[x1]) error { return noteLine(1) }

func init() {
	_ = namedEventFunc(Ev[x2]{})
	_ = namedCommandFunc(Cmd[x1]{})
}

// fun records where a function begins.
func (p *prog) fun(line int) *prog {
	e := site(1)
	if line != 0 {
		e["line"] = line
	}
	e["e"], e["k"], e["fn"] = "at", "fun", ""
	p.add(e)
	return p
}

func (p *prog) also(x testkit.Expectation) testkit.Expectation { return x }

func (r *blameRun) expectation() testkit.Expectation {
	p := r.p
	named := p.Fault == "named"
	fault := fmt.Errorf("no")
	switch p.W {
	case "ccmd":
		if named {
			return p.fun(namedLines[1]).also(testkit.ToExecuteCommandMatching(namedCommandFunc))
		}
		return p.fun(0).also(testkit.ToExecuteCommandMatching(func(Cmd[x1]) error { return fault }))
	case "cocmd":
		if named {
			return p.fun(namedLines[1]).also(testkit.ToOnlyExecuteCommandsMatching(namedCommandFunc))
		}
		return p.fun(0).also(testkit.ToOnlyExecuteCommandsMatching(func(Cmd[x1]) error { return fault }))
	case "cev":
		if named {
			return p.fun(namedLines[0]).also(testkit.ToRecordEventMatching(namedEventFunc))
		}
		return p.fun(0).also(testkit.ToRecordEventMatching(func(Ev[x2]) error { return fault }))
	default:
		if named {
			return p.fun(namedLines[0]).also(testkit.ToOnlyRecordEventsMatching(namedEventFunc))
		}
		return p.fun(0).also(testkit.ToOnlyRecordEventsMatching(func(Ev[x2]) error { return fault }))
	}
}

func (r *blameRun) step(e *engine.Engine) {
	p := r.p
	r.add(ev{"e": "prog", "w": p.W, "n": p.n})
	do := func(m dogma.Message) {
		defer func() {
			v := recover()
			if _, over := v.(overflow); over {
				panic(v)
			}
			r.complaint(v)
		}()
		_ = e.Dispatch(context.Background(), m, engine.WithCurrentTime(base))
	}
	// The message that is at fault.
	p.ev, p.cmd, p.tm = Ev[x5]{Key: "bad"}, Cmd[x5]{Key: "bad"}, Tm[x5]{Key: "bad"}
	if p.Fault == "valid" {
		p.ev, p.cmd, p.tm = Ev[x2]{Key: "bad", Bad: "bad"}, Cmd[x1]{Key: "bad", Bad: "bad"}, Tm[x0]{Key: "bad", Bad: "bad"}
		if p.W == "irec" {
			p.ev = Ev[x3]{Key: "bad", Bad: "bad"}
		}
	}
	switch p.W {
	case "arec", "uahandle", "uaroute", "uaapply", "emptya", "nila":
		do(Cmd[x0]{Key: r.key("c")})
	case "uaload":
		_ = e.Dispatch(context.Background(), Cmd[x0]{Key: r.key("b")})
		p.leaf = "load"
		do(Cmd[x0]{Key: r.key("c")})
	case "irec", "ui":
		do(Cmd[x1]{Key: r.key("c")})
	case "uj":
		do(Ev[x4]{Key: r.key("e")})
	case "acall", "aexec", "arecv", "aadv":
		p.run(p.W)
		l := p.act.Location()
		r.where("act", l.Func, l.File, l.Line)
	case "ccmd", "cocmd", "cev", "coev":
		x := r.expectation()
		t := &blameT{}
		tt := testkit.Begin(t, blameApp{r})
		tt.Expect(testkit.ExecuteCommand(Cmd[x0]{Key: r.key("c")}), x)
		for _, m := range nearPlace.FindAllStringSubmatch(t.log.String(), -1) {
			l, _ := strconv.Atoi(m[2])
			r.where("near", "", m[1], l)
		}
		r.add(ev{"e": "told"})
	default:
		do(Ev[x0]{Key: r.key("e")})
	}
}

func (r *blameRun) execute() {
	defer r.guard()
	e := engine.MustNew(configkit.FromApplication(blameApp{r}))
	for i, b := range r.sc.Progs {
		r.p = &prog{rec: r.rec, blameProg: b, n: i + 1, um: dogma.UnexpectedMessage}
		r.step(e)
	}
	r.add(ev{"e": "end"})
}

var (
	blameWhats  = []string{"arec", "irec", "pcmd", "ptm", "tcmd", "ttm", "uaroute", "uahandle", "uaapply", "uaload", "uproute", "upevent", "uptimeout", "ui", "uj", "emptya", "nila", "emptyp", "nilp", "acall", "aexec", "arecv", "aadv", "ccmd", "cocmd", "cev", "coev"}
	blameFrames = []string{"fn", "gen", "meth", "clo", "defer", "ok", "rethrow"}
)

func genBlame(prof string, seed uint64, idx int) *blameScenario {
	q := newRng(seed, "blame", prof, strconv.Itoa(idx))
	s := &blameScenario{ID: fmt.Sprintf("blame-%s/%d/%d", prof, seed, idx)}
	for i := 1 + q.IntN(6); i > 0; i-- {
		p := blameProg{W: pick(q, blameWhats), Fault: pick(q, []string{"type", "valid"})}
		if p.W[0] == 'c' {
			p.Fault = pick(q, []string{"", "named"})
		}
		n := q.IntN(4)
		if q.p(0.2) {
			n = 5 + q.IntN(25)
		}
		for ; n > 0; n-- {
			p.Frames = append(p.Frames, pick(q, blameFrames))
		}
		s.Progs = append(s.Progs, p)
	}
	return s
}

func blameJob(s *blameScenario) job {
	return job{s.ID, func(sink io.Writer) ([]ev, bool) {
		r := &blameRun{rec: newRec(base), sc: s}
		r.sink = sink
		r.execute()
		return r.close(), r.over
	}, s}
}
