package main

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"strings"
)

// params describes a family of random scenarios.
type params struct {
	agg, proc, integ, pj [2]int // number of handlers of each type
	ops                  [2]int // number of operations
	insts                int    // size of the pool of instance IDs
	depth                int    // maximum length of a causal chain
	fan                  int    // maximum number of scope calls per handling
	bulk                 float64
	huge                 bool    // long queues and chains
	err, pan, unexp      float64 // per callback
	bad                  float64 // illegal production per scope call
	badDispatch          float64
	recover              float64
	cancel, pre          float64
	ccancel              float64 // per compaction in a tick
	destroy, end, log    float64 // per scope call
	sched                float64
	routeNo, emptyID     float64
	newNil               float64
	applyPanic           float64
	opt                  float64 // operations with options
	dis                  float64 // handlers disabled by configuration
	reset, tick          float64 // per operation
	wall                 float64
	obs                  float64
	cdh                  float64
	comp                 float64 // scripted compaction
	cerr                 float64 // of which fail, on top of err
	compPar              bool    // parallel compaction may log and fail
	compPan              float64 // parallel compaction may panic
	rv                   float64
	back                 float64 // time going backwards
}

func profile(name string) params {
	p := params{
		agg: [2]int{1, 2}, proc: [2]int{1, 2}, integ: [2]int{0, 1}, pj: [2]int{0, 2},
		ops: [2]int{2, 10}, insts: 3, depth: 4, fan: 3, bulk: 0.02,
		err: 0.03, pan: 0.01, unexp: 0.004, bad: 0.01, badDispatch: 0.02, recover: 0.5,
		cancel: 0.01, pre: 0.01, ccancel: 0.05, destroy: 0.1, end: 0.1, log: 0.1, sched: 0.4,
		routeNo: 0.06, emptyID: 0.004, newNil: 0.004, applyPanic: 0.004,
		opt: 0.15, dis: 0.06, reset: 0.04, tick: 0.35, wall: 0.02, obs: 0.2,
		cdh: 0.3, comp: 0.2, rv: 0.05, back: 0.05,
	}
	switch name {
	case "mixed":
	case "calm": // no faults at all: long histories
		p.err, p.pan, p.unexp, p.bad, p.badDispatch, p.cancel, p.pre, p.emptyID, p.newNil, p.applyPanic, p.opt, p.dis, p.reset, p.rv, p.wall, p.obs, p.cdh, p.comp =
			0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
		p.ops = [2]int{5, 20}
	case "wide": // many handlers, fan-out
		p.agg, p.proc, p.integ, p.pj = [2]int{1, 4}, [2]int{1, 5}, [2]int{0, 2}, [2]int{0, 4}
		p.fan, p.depth, p.ops = 4, 4, [2]int{1, 4}
		p.pan, p.unexp, p.cancel, p.pre, p.emptyID, p.newNil, p.applyPanic = 0.002, 0.001, 0.002, 0.002, 0.001, 0.001, 0.001
	case "agg": // aggregate histories
		p.agg, p.proc, p.integ, p.pj = [2]int{1, 3}, [2]int{0, 1}, [2]int{0, 0}, [2]int{0, 0}
		p.ops, p.destroy, p.fan, p.tick, p.insts, p.reset = [2]int{6, 30}, 0.2, 4, 0.02, 4, 0.03
		p.pan, p.applyPanic = 0.03, 0.01
	case "proc": // process lifecycles
		p.agg, p.proc, p.integ, p.pj = [2]int{0, 1}, [2]int{1, 3}, [2]int{0, 0}, [2]int{0, 0}
		p.ops, p.end, p.sched, p.insts = [2]int{6, 25}, 0.25, 0.4, 4
		p.err, p.routeNo = 0.08, 0.1
	case "time": // timeouts
		p.agg, p.proc, p.integ, p.pj = [2]int{0, 1}, [2]int{1, 3}, [2]int{0, 0}, [2]int{0, 0}
		p.ops, p.sched, p.tick, p.fan, p.bulk, p.end, p.insts = [2]int{5, 30}, 0.8, 0.5, 4, 0.06, 0.08, 4
		p.err, p.opt, p.back, p.pan, p.cancel, p.pre = 0.02, 0.05, 0.08, 0.003, 0.003, 0.003
		p.reset = 0.02
	case "timecomp": // timeouts that fall due when compactions fail
		p.agg, p.proc, p.integ, p.pj = [2]int{0, 1}, [2]int{1, 2}, [2]int{0, 0}, [2]int{1, 3}
		p.ops, p.sched, p.tick, p.fan, p.insts = [2]int{5, 20}, 0.7, 0.5, 3, 3
		p.cerr, p.err, p.comp, p.pan, p.cancel, p.pre = 0.4, 0.1, 0.9, 0.002, 0.002, 0.002
	case "skip":
		p.agg, p.proc, p.integ, p.pj = [2]int{1, 2}, [2]int{1, 2}, [2]int{1, 2}, [2]int{1, 2}
		p.opt, p.dis, p.pan, p.cancel, p.pre, p.err = 0.9, 0.25, 0.002, 0.002, 0.002, 0.01
	case "err":
		p.err, p.cancel, p.pre, p.pan, p.unexp, p.bad = 0.2, 0.03, 0.04, 0.002, 0, 0.002
		p.proc, p.pj, p.integ = [2]int{1, 3}, [2]int{0, 3}, [2]int{0, 2}
		p.comp = 0.6
	case "panic":
		p.pan, p.unexp, p.emptyID, p.newNil, p.applyPanic, p.ops = 0.05, 0.03, 0.01, 0.01, 0.02, [2]int{4, 14}
		p.pj, p.integ = [2]int{0, 2}, [2]int{0, 2}
		p.cdh = 0
		p.cancel, p.pre = 0.003, 0.003
	case "guard":
		p.bad, p.badDispatch, p.recover, p.emptyID, p.newNil = 0.2, 0.2, 0.6, 0.03, 0.03
		p.integ = [2]int{0, 2}
		p.fan = 4
	case "reset":
		p.reset, p.ops, p.pan, p.cancel, p.pre = 0.2, [2]int{5, 20}, 0.005, 0.003, 0.003
		p.pj = [2]int{0, 2}
	case "proj":
		p.agg, p.proc, p.integ, p.pj = [2]int{1, 1}, [2]int{0, 1}, [2]int{0, 1}, [2]int{1, 3}
		p.rv, p.err, p.comp, p.tick, p.cdh = 0.15, 0.1, 0.7, 0.35, 0.4
		p.ops = [2]int{4, 20}
	case "comp": // compaction
		p.agg, p.proc, p.integ, p.pj = [2]int{1, 1}, [2]int{0, 1}, [2]int{0, 0}, [2]int{1, 3}
		p.rv, p.err, p.comp, p.tick, p.cdh, p.compPar, p.obs = 0.05, 0.1, 0.8, 0.6, 0.5, true, 0.3
		p.ops, p.back, p.depth = [2]int{4, 25}, 0.1, 2
	case "crash": // panics around parallel compaction; run in isolation
		p.agg, p.proc, p.integ, p.pj = [2]int{1, 1}, [2]int{0, 1}, [2]int{0, 0}, [2]int{1, 2}
		p.rv, p.err, p.comp, p.tick, p.cdh, p.compPar, p.compPan, p.obs = 0.02, 0.05, 0.8, 0.2, 1, true, 0.25, 0.1
		p.ops, p.depth, p.pan, p.unexp = [2]int{3, 10}, 2, 0.1, 0.03
	case "big": // long queues, long histories and many timeouts
		p.err, p.pan, p.unexp, p.bad, p.badDispatch, p.cancel, p.pre, p.emptyID, p.newNil, p.applyPanic, p.opt, p.dis, p.rv, p.wall, p.cdh, p.log =
			0.001, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0.02
		p.ops, p.insts, p.depth, p.destroy, p.end, p.routeNo, p.tick, p.huge = [2]int{3, 6}, 2, 2, 0.003, 0.003, 0.002, 0.4, true
	case "facts":
		p.obs, p.log, p.compPar, p.cdh, p.comp = 0.8, 0.3, true, 0.4, 0.7
	default:
		panic("harness: unknown profile " + name)
	}
	return p
}

type rng struct{ *rand.Rand }

func newRng(seed uint64, parts ...string) rng {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return rng{rand.New(rand.NewPCG(seed, h.Sum64()))}
}

func (r rng) p(x float64) bool { return x > 0 && r.Float64() < x }
func (r rng) in(x [2]int) int {
	if x[1] <= x[0] {
		return x[0]
	}
	return x[0] + r.IntN(x[1]-x[0]+1)
}
func pick[T any](r rng, xs []T) T { return xs[r.IntN(len(xs))] }

var namePool = []string{
	"a", "aa", "A", "b", "proc", "proc-1", "proc-10", "order", "orders", "<x>", "é", "z.y", "x|y", "the-very-long-handler-name-0123456789",
	"i1", "T0", "h[0]", "h",
}

var instPool = []string{"i1", "i2", "i10", "I1", " i1", "i1 ", "x/y", "é", "0", "i", "i1.i2", "i11"}

func (r rng) app(p params) appCfg {
	a := appCfg{CDH: r.p(p.cdh)}
	if r.p(0.3) {
		a.Resets = r.IntN(4)
	}
	if p.huge {
		// Whatever a handler produces is handled by others.
		a.Hs = []handlerCfg{
			{N: pick(r, namePool[:4]), T: "aggregate", C: []string{"C0", "C1"}, P: []string{"E0", "E1"}},
			{N: pick(r, namePool[4:8]), T: "process", C: []string{"E0", "E2"}, P: []string{"C0", "C2", "T0", "T1"}},
			{N: pick(r, namePool[8:12]), T: "integration", C: []string{"C2"}, P: []string{"E2", "E3"}},
			{N: pick(r, namePool[12:]), T: "projection", C: []string{"E0", "E3"}},
		}
		if r.p(0.5) {
			a.Hs = append(a.Hs, handlerCfg{N: "second", T: "process", C: []string{"E1"}, P: []string{"C1", "T1"}})
		}
		return a
	}
	na, np, ni, nj := r.in(p.agg), r.in(p.proc), r.in(p.integ), r.in(p.pj)
	if na+np+ni+nj == 0 {
		na = 1
	}
	names := append([]string{}, namePool...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	cmds, evs, tms := typesOfKind("c"), typesOfKind("e"), typesOfKind("t")
	r.Shuffle(len(cmds), func(i, j int) { cmds[i], cmds[j] = cmds[j], cmds[i] })
	r.Shuffle(len(evs), func(i, j int) { evs[i], evs[j] = evs[j], evs[i] })

	take := func(l *[]string, max int) []string {
		n := 1 + r.IntN(max)
		if n > len(*l) {
			n = len(*l)
		}
		out := append([]string{}, (*l)[:n]...)
		*l = (*l)[n:]
		return out
	}
	sample := func(l []string, lo int) []string {
		n := lo + r.IntN(len(l)-lo+1)
		if n > 4 {
			n = 4
		}
		x := append([]string{}, l...)
		r.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
		return x[:n]
	}

	freeC, freeE := append([]string{}, cmds...), append([]string{}, evs...)
	k := 0
	add := func(t string, c, pr []string) {
		a.Hs = append(a.Hs, handlerCfg{N: names[k], T: t, C: c, P: pr, Dis: r.p(p.dis), Less: t == "process" && r.p(0.05)})
		k++
	}
	for i := 0; i < na && len(freeC) > 0 && len(freeE) > 0; i++ {
		add("aggregate", take(&freeC, 2), take(&freeE, 2))
	}
	for i := 0; i < ni && len(freeC) > 0; i++ {
		var pr []string
		if len(freeE) > 0 && r.p(0.8) {
			pr = take(&freeE, 2)
		}
		add("integration", take(&freeC, 2), pr)
	}
	for i := 0; i < np; i++ {
		pr := sample(cmds, 1)
		if p.sched > 0 && r.p(0.9) {
			pr = append(pr, sample(tms, 1)...)
		}
		add("process", sample(evs, 1), pr)
	}
	for i := 0; i < nj; i++ {
		add("projection", sample(evs, 1), nil)
	}
	r.Shuffle(len(a.Hs), func(i, j int) { a.Hs[i], a.Hs[j] = a.Hs[j], a.Hs[i] })
	return a
}

var (
	schedOffs = [][]int64{{-3600}, {-1}, {0, -1}, {0}, {0}, {0, 1}, {1}, {1}, {2}, {60}, {60}, {60, 1}, {3600}, {3600}, {3599, 999999999}, {86400}}
	stepOffs  = [][]int64{{0}, {0}, {0, 1}, {1}, {1}, {2}, {30}, {60}, {60}, {3599, 999999999}, {3600}, {3600, 1}, {7200}, {86400}}
)

func addOff(a, b []int64) []int64 {
	s, n := a[0]+b[0], int64(0)
	if len(a) > 1 {
		n += a[1]
	}
	if len(b) > 1 {
		n += b[1]
	}
	for n >= 1e9 {
		n -= 1e9
		s++
	}
	for n < 0 {
		n += 1e9
		s--
	}
	return []int64{s, n}
}

func (r rng) insts(p params) []string {
	insts := append([]string{}, instPool...)
	r.Shuffle(len(insts), func(i, j int) { insts[i], insts[j] = insts[j], insts[i] })
	insts = insts[:1+r.IntN(p.insts)]
	if r.p(0.02) {
		for i := 0; i < 12; i++ {
			insts = append(insts, fmt.Sprintf("n%d", i))
		}
	}
	return insts
}

func genScenario(prof string, seed uint64, idx int) *scenario {
	p := profile(prof)
	r := newRng(seed, prof, fmt.Sprint(idx))
	return genWith(p, seed, r, fmt.Sprintf("%s/%d/%d", prof, seed, idx), r.app(p), "m", nil)
}

// genWith makes a scenario for an application. If insts is nil the instance IDs
// are chosen too.
func genWith(p params, seed uint64, r rng, id string, a appCfg, prefix string, insts []string) *scenario {
	s := &scenario{ID: id, App: a, Comp: map[string]*comp{}}

	if insts == nil {
		insts = r.insts(p)
	}

	// Types that can be dispatched.
	var consumed []string
	seen := map[string]bool{}
	hs := map[string]handlerCfg{}
	for _, h := range s.App.Hs {
		hs[h.N] = h
		for _, t := range h.C {
			if !seen[t] {
				seen[t] = true
				consumed = append(consumed, t)
			}
		}
	}

	now := []int64{int64(r.IntN(3)) * 1000000, 0}
	nops := r.in(p.ops)
	for i := 0; i < nops; i++ {
		o := opCfg{Op: "dispatch"}
		switch {
		case r.p(p.reset):
			o.Op = "reset"
			s.Ops = append(s.Ops, o)
			continue
		case r.p(p.tick):
			o.Op = "tick"
		}
		if r.p(p.back) {
			d := pick(r, stepOffs)
			now = addOff(now, []int64{-d[0], 0})
		} else if r.p(0.6) {
			now = addOff(now, pick(r, stepOffs))
		}
		o.Now = now
		if r.p(p.wall) {
			o.Now = nil
		}
		if r.p(0.2) {
			o.TZ = r.IntN(40) - 20
		}
		o.M = fmt.Sprintf("%s%d", prefix, i)
		if o.Op == "dispatch" {
			o.T = pick(r, consumed)
			if r.p(p.badDispatch) {
				switch r.IntN(3) {
				case 0:
					o.Bad = true
				case 1:
					o.T = pick(r, typesOfKind("t"))
				case 2:
					o.T = pick(r, append(typesOfKind("c"), typesOfKind("e")...))
				}
			}
		}
		if r.p(p.opt) {
			for n := 1 + r.IntN(4); n > 0; n-- {
				if r.p(0.5) {
					o.Opts = append(o.Opts, []any{"h", pick(r, s.App.Hs).N, r.p(0.5)})
				} else {
					o.Opts = append(o.Opts, []any{"ty", pick(r, []string{"aggregate", "process", "integration", "projection"}), r.p(0.5)})
				}
			}
		}
		if r.p(p.pre) {
			o.Ctx = "pre"
		} else if p.cancel > 0 && r.p(0.5) {
			o.Ctx = "can"
		}
		if r.p(p.obs) {
			o.Obs = 1 + r.IntN(2)
		}
		q := newRng(seed, s.ID, "op", fmt.Sprint(i))
		if q.p(0.3) {
			o.Dl = 3600 + int64(q.IntN(3600))
		}
		o.Via = q.p(0.3)
		s.Ops = append(s.Ops, o)
	}

	s.lazy = func(key, handler string) *script {
		return lazyScript(p, seed, s, hs, insts, key, handler)
	}
	s.lcmp = func(handler string, n int) *comp {
		q := newRng(seed, s.ID, "compact", handler, fmt.Sprint(n))
		c := q.comp(p, fmt.Sprintf("%s#%d", handler, n))
		if c != nil && q.p(p.ccancel) {
			c.Logs = append(c.Logs, "!cancel")
			q.Shuffle(len(c.Logs), func(i, j int) { c.Logs[i], c.Logs[j] = c.Logs[j], c.Logs[i] })
		}
		return c
	}
	return s
}

func (q rng) end(p params, noUnexp bool) string {
	switch {
	case q.p(p.err):
		return "err"
	case q.p(p.pan):
		return "panic"
	case !noUnexp && q.p(p.unexp):
		return "unexp"
	}
	return ""
}

func (q rng) comp(p params, k string) *comp {
	if !q.p(p.comp) {
		return nil
	}
	c := &comp{}
	for n := q.IntN(3); n > 0; n-- {
		c.Logs = append(c.Logs, fmt.Sprintf("log/%s/%d", k, n))
	}
	if q.p(p.cerr) {
		c.End = "err"
		return c
	}
	c.End = q.end(p, true)
	return c
}

func lazyScript(p params, seed uint64, s *scenario, hs map[string]handlerCfg, insts []string, key, handler string) *script {
	q := newRng(seed, s.ID, key, handler)
	x := &script{}
	if handler == "*apply" {
		if q.p(p.applyPanic) {
			x.Apply = "panic" + pick(q, []string{"1", "2", "2"})
		}
		return x
	}
	h := hs[handler]
	depth := strings.Count(key, ".")

	x.Route = pick(q, insts)
	switch h.T {
	case "aggregate", "process":
		switch {
		case q.p(p.emptyID):
			x.Route = ""
		case h.T == "process" && q.p(p.routeNo):
			x.RouteNo = true
		case h.T == "process" && q.p(p.err*0.5):
			x.RouteEnd = "err"
		case q.p(p.pan * 0.5):
			x.RouteEnd = "panic"
		case q.p(p.unexp * 0.5):
			x.RouteEnd = "unexp"
		case q.p(p.newNil):
			x.New = "nil"
		case q.p(p.pan * 0.3):
			x.New = "panic"
		}
	}
	x.End = q.end(p, false)
	if h.T == "aggregate" && x.End == "err" {
		x.End = ""
	}

	n := 0
	if depth < p.depth {
		max := p.fan
		if depth >= 2 {
			max = 2
		}
		if depth >= 3 {
			max = 1
		}
		n = q.IntN(max + 1)
		if depth <= 1 && q.p(p.bulk) {
			n = 8 + q.IntN(20)
		}
	}
	// The messages of every other operation cause either very many others or a
	// very long chain of others.
	huge := false
	if p.huge {
		switch root, _, _ := strings.Cut(key, "."); newRng(seed, s.ID, root).IntN(3) {
		case 0:
			if huge = depth == 0; huge {
				n = 40 + q.IntN(80)
			}
		case 1:
			if depth < 40 {
				n = 1
			}
		}
	}
	bulk := n >= 8
	ids := 0
	prod := func(kinds string) (string, string, bool) {
		ids++
		k := fmt.Sprintf("%s.%d%s", key, ids, short(s, handler))
		var l []string
		for _, t := range h.P {
			if strings.Contains(kinds, typeByName[t].kind) {
				l = append(l, t)
			}
		}
		if q.p(p.bad) && q.p(0.5) {
			l = typesOfKind(kinds)
		}
		if len(l) == 0 {
			return "", "", false
		}
		return k, pick(q, l), true
	}
	addProd := func(o, kinds string) {
		if k, t, ok := prod(kinds); ok {
			op := sop{O: o, P: k, T: t, Rec: q.p(p.recover)}
			if q.p(p.bad * 0.5) {
				op.Bad = true
			}
			if o == "sched" {
				op.At = pick(q, schedOffs)
				if bulk || q.p(0.3) {
					op.At = []int64{int64(q.IntN(600)) - 20, int64(q.IntN(3))}
				}
				if q.p(0.01) {
					op.At = []int64{0, 0, 0}
				}
				if q.p(0.2) {
					op.TZ = q.IntN(40) - 20
				}
			}
			x.Ops = append(x.Ops, op)
		}
	}
	for i := 0; i < n; i++ {
		switch {
		case q.p(p.log):
			text := fmt.Sprintf("log/%s/%s/%d%s", key, handler, i, []string{"", "%", "%d"}[i%3])
			if (len(key)+i)%7 == 0 {
				text = ""
			}
			x.Ops = append(x.Ops, sop{O: "log", P: text})
			continue
		case q.p(p.cancel):
			x.Ops = append(x.Ops, sop{O: "cancel"})
			continue
		}
		switch h.T {
		case "aggregate":
			if q.p(p.destroy) {
				x.Ops = append(x.Ops, sop{O: "destroy"})
			} else {
				addProd("rec", "e")
			}
		case "integration":
			addProd("rec", "e")
		case "process":
			switch {
			case q.p(p.end):
				x.Ops = append(x.Ops, sop{O: "end"})
			case q.p(p.sched) || (bulk && !huge && q.p(0.7)):
				addProd("sched", "t")
			default:
				if !bulk || huge || i < 6 {
					addProd("exec", "c")
				}
			}
		}
	}
	if h.T == "projection" {
		x.OK = q.p(0.85)
		switch {
		case q.p(p.rv * 0.4):
			x.RV = "set"
		case q.p(p.rv * 0.6):
			x.RV = "err"
		case q.p(p.pan * 0.5):
			x.RV = "panic"
		}
		if q.p(p.err) {
			x.Close = "err"
		} else if q.p(p.pan * 0.5) {
			x.Close = "panic"
		}
		if s.App.CDH {
			c := q.comp(p, key)
			if c != nil {
				if c.End == "panic" {
					c.End = ""
				}
				if q.p(p.compPan) {
					c.End = "panic"
				}
				if !p.compPar {
					c.Logs = nil
				} else {
					c.Gate = pick(q, []string{"", "slow", "late", "late", "log"})
				}
				x.Comp = c
			}
		}
	}
	return x
}

// short returns a short, unique suffix for messages produced by a handler.
func short(s *scenario, handler string) string {
	for i, h := range s.App.Hs {
		if h.N == handler {
			return string(rune('a' + i))
		}
	}
	return "?"
}
