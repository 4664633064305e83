package main

import (
	"fmt"
	"io"
	"regexp"
	"strings"
)

// tParams describes a family of random test scenarios.
type tParams struct {
	steps                                     [2]int
	expect                                    float64 // steps that are expectations
	sel, exec                                 float64 // steps that select handlers, or use the executor outside of actions
	aExec, aRec, aAdv, aCall, aCustom         float64 // weights of the actions
	lMsg, lProbe, lSat                        float64 // weights of the leaves
	depth                                     int     // of expectation trees
	nest                                      float64
	impossible, leafErr, unknown              float64
	icpt, callIcpt, dup                       float64
	bodies                                    [2]int
	goes, par                                 float64
	parN                                      int // greatest number of concurrent executions, less two
	actEnd                                    float64
	texec                                     float64
	same                                      float64
	cmp                                       float64
	start, opts                               float64
	back                                      float64
	cont                                      float64
	badSel                                    float64
	script, ann                               float64
	wide                                      float64 // expectations with very many parts
	near                                      float64 // messages that are almost equal to a produced one
	long                                      float64 // tests with very many steps
	can                                       float64 // contexts that are cancelled
	pb                                        float64
	onlyShare, anyShare, matchShare, eqShares float64
}

func tProfile(name string) (tParams, params) {
	p := profile("mixed")
	p.bulk, p.err, p.pan, p.unexp, p.bad, p.recover, p.cancel, p.pre = 0.005, 0.008, 0.003, 0.001, 0.003, 1, 0, 0
	p.emptyID, p.newNil, p.applyPanic, p.log, p.comp, p.compPar, p.rv = 0, 0, 0, 0.05, 0, false, 0.01
	p.depth, p.fan, p.dis, p.insts, p.sched = 3, 3, 0.1, 2, 0.35
	p.agg, p.proc, p.integ, p.pj = [2]int{1, 2}, [2]int{0, 2}, [2]int{0, 1}, [2]int{0, 1}
	t := tParams{
		steps: [2]int{2, 7}, expect: 0.6, sel: 0.12, exec: 0.03,
		aExec: 4, aRec: 3, aAdv: 1.5, aCall: 3, aCustom: 1,
		lMsg: 5, lProbe: 1, lSat: 1, depth: 2, nest: 0.2,
		impossible: 0.03, leafErr: 0.03, unknown: 0.02,
		icpt: 0.1, callIcpt: 0.15, bodies: [2]int{0, 3}, goes: 0.05, par: 0.05, parN: 1, actEnd: 0.05, texec: 0.02, same: 0.08,
		cmp: 0.15, start: 0.9, opts: 0.3, back: 0.1, cont: 0.5, badSel: 0.15, pb: 0.2, near: 0.1, long: 0.01, ann: 0.03,
		onlyShare: 1, anyShare: 0.2, matchShare: 1, eqShares: 2,
	}
	base, seq := strings.CutPrefix(name, "seq-")
	switch base {
	case "mixed":
	case "clock":
		t.steps, t.aAdv, t.expect, t.start, t.back, t.aCustom, t.sel = [2]int{4, 14}, 5, 0.3, 0.7, 0.2, 1.5, 0.05
		p.sched, p.proc, p.depth = 0.7, [2]int{1, 3}, 2
		t.long = 0.03
	case "msg":
		t.expect, t.nest, t.lProbe, t.lSat, t.opts, t.sel, t.exec = 0.85, 0.15, 0.2, 0.1, 0.4, 0.08, 0
		p.fan, p.integ = 4, [2]int{0, 2}
	case "why":
		t.expect, t.nest, t.lProbe, t.lSat, t.opts, t.sel, t.exec, t.cont = 0.9, 0.1, 0.1, 0, 0.5, 0.12, 0, 0.5
		p.fan, p.integ = 4, [2]int{0, 2}
	case "tree":
		t.expect, t.nest, t.depth, t.lMsg, t.lProbe, t.lSat = 0.9, 0.75, 4, 1, 6, 1.5
		t.steps = [2]int{2, 8}
	case "sat":
		t.expect, t.nest, t.depth, t.lMsg, t.lProbe, t.lSat = 0.95, 0.15, 2, 0.2, 0.5, 8
		t.steps = [2]int{3, 10}
	case "rep":
		t.expect, t.nest, t.depth, t.lMsg, t.lProbe, t.lSat = 0.9, 0.4, 3, 4, 3, 3
		t.script, t.ann, t.leafErr, t.impossible, t.cont, t.goes, t.par, t.cmp = 0.7, 0.25, 0.01, 0.01, 1, 0, 0, 0.05
		t.steps, p.fan = [2]int{3, 10}, 4
	case "exec":
		t.aCall, t.aExec, t.aRec, t.aAdv, t.aCustom, t.exec, t.icpt, t.callIcpt = 8, 1, 1, 1.5, 2, 0.15, 0.35, 0.4
		t.bodies, t.goes, t.par, t.actEnd, t.texec, t.dup, t.expect = [2]int{1, 4}, 0.15, 0.12, 0.12, 0.1, 1, 0.4
		t.lProbe, t.lMsg = 3, 2
		p.err, p.pan, p.sched, p.depth = 0.04, 0.02, 0.1, 2
	case "storm":
		t.steps, t.aCall, t.aExec, t.aRec, t.aAdv, t.aCustom, t.exec, t.sel = [2]int{1, 3}, 1, 0, 0, 0, 0, 0, 0
		t.bodies, t.goes, t.par, t.parN, t.actEnd, t.expect, t.icpt, t.callIcpt = [2]int{1, 2}, 0, 1, 40, 0, 1, 0.1, 0.1
		t.lProbe, t.lSat, t.lMsg, t.impossible, t.leafErr = 2, 3, 2, 0, 0
		p.depth, p.fan, p.sched = 1, 2, 0.1
	case "flow":
		t.steps, t.impossible, t.leafErr, t.unknown, t.actEnd, t.same, t.nest = [2]int{3, 10}, 0.1, 0.08, 0.08, 0.12, 0.2, 0.3
		t.lProbe, t.lSat, t.aCustom, t.back = 3, 2, 3, 0.25
		p.err, p.depth = 0.04, 2
		t.ann, t.long = 0.1, 0.02
	case "ctx":
		t.aExec, t.aRec, t.aAdv, t.aCall, t.aCustom, t.callIcpt, t.can = 3, 2, 2, 4, 3, 0.3, 0.3
		t.bodies, t.expect, t.impossible, t.leafErr = [2]int{1, 3}, 0.3, 0, 0
		p.integ, p.pj, t.opts = [2]int{1, 1}, [2]int{1, 1}, 1
	case "big": // many messages, and expectations with many parts
		t.steps, t.expect, t.nest, t.depth, t.wide, t.pb = [2]int{2, 5}, 0.9, 0.5, 1, 0.4, 0
		t.lMsg, t.lProbe, t.lSat, t.opts, t.sel, t.exec, t.aCustom, t.impossible, t.leafErr = 5, 1, 2, 1, 0.05, 0, 0, 0, 0
		t.matchShare, t.onlyShare, t.eqShares = 3, 2, 2
		p.err, p.pan, p.unexp, p.bad, p.dis, p.destroy, p.end, p.routeNo, p.rv, p.sched, p.log, p.huge = 0, 0, 0, 0, 0, 0.003, 0.003, 0.002, 0, 0.1, 0, true
	case "sel":
		t.sel, t.steps, t.expect, t.opts, t.long = 0.45, [2]int{4, 16}, 0.2, 0.5, 0.04
		p.agg, p.proc, p.integ, p.pj, p.dis, p.depth = [2]int{1, 2}, [2]int{1, 2}, [2]int{1, 2}, [2]int{1, 2}, 0.2, 2
		p.err, p.pan = 0.002, 0.001
	default:
		panic("harness: unknown profile " + name)
	}
	if seq {
		// Commands are executed one at a time, and only once.
		t.goes, t.par, t.dup = 0, 0, 0
	}
	return t, p
}

// testGenJob makes a scenario and runs it. The expectations are chosen after a
// dry run, when the messages that each step produces are known.
func testGenJob(prof string, seed uint64, idx int) job {
	s := &tScenario{ID: fmt.Sprintf("%s/%d/%d", prof, seed, idx)}
	return job{s.ID, func(sink io.Writer) ([]ev, bool) {
		genTest(s, prof, seed, idx)
		r := newTRun(s)
		r.sink = sink
		r.execute()
		return r.close(), r.over
	}, s}
}

type tGen struct {
	rng
	t      tParams
	p      params
	s      *tScenario
	hs     map[string]handlerCfg
	cons   []string // consumed commands and events
	cmds   []string // consumed commands
	prod   []string // produced commands and events
	labels int
	keys   int
	clean  int
}

func weighted(r rng, w ...float64) int {
	sum := 0.0
	for _, x := range w {
		sum += x
	}
	v := r.Float64() * sum
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func genTest(s *tScenario, prof string, seed uint64, idx int) {
	t, p := tProfile(prof)
	g := &tGen{rng: newRng(seed, "test", prof, fmt.Sprint(idx)), t: t, p: p, s: s, hs: map[string]handlerCfg{}}
	s.App = g.app(p)
	s.App.Resets = 0
	if g.rng.p(t.pb) {
		swap := map[string]string{pick(g.rng, typesOfKind("c")): "C6", pick(g.rng, typesOfKind("e")): "E6"}
		for i := range s.App.Hs {
			for _, l := range [][]string{s.App.Hs[i].C, s.App.Hs[i].P} {
				for j := range l {
					if n, ok := swap[l[j]]; ok {
						l[j] = n
					}
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, h := range s.App.Hs {
		g.hs[h.N] = h
		for _, c := range h.C {
			if !seen["c"+c] {
				seen["c"+c] = true
				g.cons = append(g.cons, c)
				if typeByName[c].kind == "c" {
					g.cmds = append(g.cmds, c)
				}
			}
		}
		for _, c := range h.P {
			if !seen["p"+c] && typeByName[c].kind != "t" {
				seen["p"+c] = true
				g.prod = append(g.prod, c)
			}
		}
	}
	insts := append([]string{}, instPool...)
	g.Shuffle(len(insts), func(i, j int) { insts[i], insts[j] = insts[j], insts[i] })
	insts = insts[:1+g.IntN(p.insts)]

	s.Stop = "exit"
	if g.rng.p(t.cont) {
		s.Stop = "cont"
	}
	if g.rng.p(t.start) {
		s.Begin.Start = []int64{int64(g.IntN(4)) * 1000000, int64(g.IntN(2)) * int64(g.IntN(1000000000))}
		if g.rng.p(0.4) {
			s.Begin.TZ = g.IntN(40) - 20
		}
		if g.rng.p(0.12) {
			// Close to a day on which clocks are put forward or back.
			s.Begin.Start, s.Begin.TZ = []int64{pick(g.rng, dstDays) + int64(g.IntN(30)-24)*3600, 0}, dstZone
		}
	}
	if g.rng.p(t.opts) {
		for n := 1 + g.IntN(2); n > 0; n-- {
			if g.rng.p(0.2) {
				s.Begin.Opts = append(s.Begin.Opts, []any{"h", pick(g.rng, s.App.Hs).N, g.rng.p(0.7)})
			} else {
				s.Begin.Opts = append(s.Begin.Opts, []any{"ty", pick(g.rng, []string{"aggregate", "process", "integration", "integration", "projection", "projection"}), g.rng.p(0.7)})
			}
		}
	}
	if g.rng.p(t.icpt) {
		s.Begin.Icpt = g.icpt("test")
	}
	if g.rng.p(t.cmp) {
		s.Begin.Cmp = "body"
	}
	q := newRng(seed, s.ID, "ctx")
	s.Begin.Ctx = q.p(0.6)
	s.Begin.Dl = int64(q.IntN(3)) * 2000
	if g.rng.p(t.can) {
		s.Begin.Ctx, s.Begin.Pre = true, g.rng.p(0.5)
	}

	n := g.in(t.steps)
	if g.rng.p(t.long) {
		n = 30 + g.IntN(30)
	}
	for ; n > 0; n-- {
		s.Steps = append(s.Steps, g.step())
	}

	calm := p
	calm.err, calm.pan, calm.unexp, calm.bad = 0, 0, 0, 0
	s.lazy = func(key, handler string) *script {
		q := p
		if strings.HasPrefix(key, "g") {
			q = calm
		}
		sc := &scenario{ID: "test/" + s.ID, App: s.App}
		x := lazyScript(q, seed, sc, g.hs, insts, key, handler)
		if z := newRng(seed, s.ID, "texec", key, handler); strings.HasPrefix(key, "m") && len(g.cmds) > 0 && z.p(t.texec) {
			x.Ops = append(x.Ops, sop{O: "texec", P: key + "t" + short(sc, handler), T: pick(z, g.cmds)})
		}
		return x
	}

	// Dry run.
	for _, st := range s.Steps {
		if st.K == "expect" {
			st.X = &tExp{K: "probe", L: "dry", Ok: true}
		}
	}
	d := newTRun(s)
	d.dry = true
	d.execute()
	d.close()
	var done []int
	for i, st := range s.Steps {
		if st.K == "ann" {
			g.annotate(st, d.pools, i)
		}
		if st.K != "expect" {
			continue
		}
		if len(done) > 0 && g.rng.p(t.same) {
			st.Same = pick(g.rng, done) + 1
			st.X = nil
			continue
		}
		st.X = g.exp(d.pools[i], st.Acts[0], t.depth)
		done = append(done, i)
	}
}

func (g *tGen) key(prefix string) string {
	g.keys++
	return fmt.Sprintf("%s%d", prefix, g.keys)
}

func (g *tGen) icpt(n string) *tIcpt {
	x := &tIcpt{N: n, Do: []int{0, 1, 1, 1, 2}[g.IntN(5)]}
	if g.t.dup == 0 && x.Do > 1 {
		x.Do = 1
	}
	if g.rng.p(0.2) && len(g.cmds) > 0 {
		x.Oth = pick(g.rng, g.cmds)
	}
	x.End = pick(g.rng, []string{"", "", "", "ok", "err", "panic"})
	x.Can = g.rng.p(0.2)
	return x
}

func (g *tGen) step() *tStep {
	switch {
	case g.t.ann > 0 && g.rng.p(g.t.ann):
		return &tStep{K: "ann", M: "b0", Text: g.label()}
	case g.rng.p(g.t.sel):
		return g.sel()
	case g.s.Begin.Ctx && g.rng.p(g.t.can*0.4):
		return &tStep{K: "cancel"}
	case g.rng.p(g.t.exec) && len(g.cmds) > 0:
		return &tStep{K: "exec", M: g.key("k"), T: pick(g.rng, g.cmds)}
	case g.rng.p(g.t.expect):
		return &tStep{K: "expect", Acts: []*tAct{g.act()}}
	}
	s := &tStep{K: "prepare"}
	n := 1 + g.IntN(3)
	if g.rng.p(0.08) {
		n += 4
	}
	for ; n > 0; n-- {
		s.Acts = append(s.Acts, g.act())
	}
	return s
}

func (g *tGen) sel() *tStep {
	s := &tStep{K: "sel", En: g.rng.p(0.6), Like: g.rng.p(0.45)}
	hs := g.s.App.Hs
	if !s.Like {
		if g.rng.p(g.t.badSel) {
			s.Names = []string{pick(g.rng, []string{"nobody", hs[0].N + "x", "", strings.ToUpper(hs[0].N) + "_"})}
			if g.rng.p(0.3) {
				s.Names = append(s.Names, pick(g.rng, hs).N)
			}
			return s
		}
		var dis []string
		for n := 1 + g.IntN(3); n > 0; n-- {
			h := pick(g.rng, hs)
			if h.Dis && s.En {
				dis = append(dis, h.N)
				continue
			}
			s.Names = append(s.Names, h.N)
		}
		if len(dis) > 0 && g.rng.p(g.t.badSel) || len(s.Names) == 0 {
			s.Names = append(dis, s.Names...)
		}
		return s
	}
	for n := 1 + g.IntN(2); n > 0; n-- {
		h := pick(g.rng, hs).N
		q := regexp.QuoteMeta(h)
		s.Names = append(s.Names, pick(g.rng, []string{q, q, "[0-9]", "[a-f]", "-", "^" + g.hs[h].T, "^" + q + "$", "^" + q, q + "$", "^" + q + ".+", ".", "^.$", "[a-p]", "(?i)" + q, "o|z", "", "^", "x*", "^" + string([]rune(q)[:1])}))
	}
	for i, n := range s.Names {
		if _, err := regexp.Compile(n); err != nil {
			s.Names[i] = "."
		}
	}
	if g.rng.p(g.t.badSel) {
		s.Names = append(s.Names, "^no such$")
		g.Shuffle(len(s.Names), func(i, j int) { s.Names[i], s.Names[j] = s.Names[j], s.Names[i] })
	}
	return s
}

func (g *tGen) act() *tAct {
	w := []float64{g.t.aExec, g.t.aRec, g.t.aAdv, g.t.aCall, g.t.aCustom}
	var evs []string
	for _, c := range g.cons {
		if typeByName[c].kind == "e" {
			evs = append(evs, c)
		}
	}
	if len(g.cmds) == 0 {
		w[0] = 0
	}
	if len(evs) == 0 {
		w[1] = 0
	}
	switch weighted(g.rng, w...) {
	case 0:
		a := &tAct{K: "exec", M: g.key("m"), T: pick(g.rng, g.cmds)}
		if g.rng.p(g.t.unknown) {
			a.T = g.unused("c", a.T)
		}
		return a
	case 1:
		a := &tAct{K: "rec", M: g.key("m"), T: pick(g.rng, evs)}
		if g.rng.p(g.t.unknown) {
			a.T = g.unused("e", a.T)
		}
		return a
	case 2:
		switch g.IntN(5) {
		case 0, 1, 2:
			return &tAct{K: "by", D: pick(g.rng, stepOffs)}
		case 3:
			a := &tAct{K: "adj", D: pick(g.rng, stepOffs)}
			if g.rng.p(g.t.back) {
				a.D = pick(g.rng, [][]int64{{-1}, {0, -1}, {-3600}})
			}
			if g.rng.p(0.3) {
				a.TZ = g.IntN(40) - 20
			}
			return a
		default:
			st := []int64{200000000 + int64(g.IntN(10)), 0}
			if g.s.Begin.Start != nil {
				st = addOff(g.s.Begin.Start, []int64{0, 0})
			}
			a := &tAct{K: "to", D: addOff(st, addOff(pick(g.rng, stepOffs), pick(g.rng, [][]int64{{0, 0}, {0, 0}, {60, 0}, {3600, 0}, {86400, 0}, {0, 1}})))}
			if g.s.Begin.Start == nil {
				a.D = []int64{300000000 + int64(g.IntN(10)), 0}
			}
			if g.rng.p(g.t.back) {
				a.D = addOff(st, pick(g.rng, [][]int64{{-1}, {0, -1}, {-3600}}))
			}
			if g.rng.p(0.4) {
				a.TZ = g.IntN(40) - 20
			} else if g.rng.p(0.1) {
				a.TZ = dstZone
			}
			return a
		}
	case 3:
		a := &tAct{K: "call"}
		if g.rng.p(g.t.callIcpt) {
			a.Icpt = g.icpt("call")
		}
		g.body(a, true)
		if g.rng.p(g.t.actEnd) {
			a.End = "panic"
			if g.s.Stop == "exit" && g.rng.p(0.4) {
				a.End = "exit"
			}
		}
		return a
	default:
		a := &tAct{K: "custom", Bind: g.rng.p(0.3)}
		if a.Bind && g.rng.p(g.t.callIcpt) {
			a.Icpt = g.icpt("custom")
			if g.rng.p(0.4) {
				a.Icpt = &tIcpt{N: "nil"}
			}
		}
		g.body(a, a.Bind)
		if g.rng.p(g.t.actEnd * 2) {
			a.End = pick(g.rng, []string{"err", "err", "panic"})
		}
		return a
	}
}

// unused returns a type that the application does not use.
func (g *tGen) unused(kind, d string) string {
	used := map[string]bool{}
	for _, t := range append(append([]string{}, g.cons...), g.prod...) {
		used[t] = true
	}
	for _, t := range typesOfKind(kind) {
		if !used[t] {
			return t
		}
	}
	return d
}

func (g *tGen) body(a *tAct, bind bool) {
	for n := g.in(g.t.bodies); n > 0; n-- {
		if len(g.cmds) == 0 {
			break
		}
		b := &tBody{K: "ex", M: g.key("k"), T: pick(g.rng, g.cmds)}
		switch {
		case bind && a.K == "call" && g.rng.p(g.t.par) && (a.Icpt == nil || a.Icpt.Oth == ""):
			b.K, b.N, b.M = "par", 2+g.IntN(g.t.parN+1), g.key("g")
		case bind && g.rng.p(g.t.can):
			b.Can = true
		case bind && g.rng.p(0.03):
			b.Bad = true
		case bind && g.rng.p(0.03):
			b.T = g.unused("c", b.T)
		case !bind && g.rng.p(0.7):
			b.K, b.M, b.T = "disp", g.key("m"), pick(g.rng, g.cons)
		}
		a.Body = append(a.Body, b)
	}
	if a.K == "custom" {
		if g.rng.p(0.5) {
			a.Body = append(a.Body, &tBody{K: "clk"})
		}
		if g.rng.p(0.1) {
			a.Body = append(a.Body, &tBody{K: "set", D: pick(g.rng, stepOffs)})
		}
	}
	if bind && a.K == "call" && g.rng.p(g.t.goes) && len(g.cmds) > 0 {
		a.Body = append(a.Body, &tBody{K: "go", M: g.key("g"), T: pick(g.rng, g.cmds)})
	}
}

func (g *tGen) label() string {
	g.labels++
	return fmt.Sprintf("x%d", g.labels)
}

func (g *tGen) exp(pool []*poolMsg, a *tAct, depth int) *tExp {
	x := &tExp{L: g.label()}
	if depth > 0 && g.rng.p(g.t.nest) {
		x.K = pick(g.rng, []string{"all", "any", "none", "not", "rep"})
		n := 1 + g.IntN(3)
		if x.K == "not" {
			n = 1
		}
		if x.K == "rep" {
			n += g.IntN(3)
		}
		if x.K != "not" && g.rng.p(g.t.wide) {
			// All of them have the same outcome, except maybe one.
			ok := g.rng.p(0.5)
			n = 8 + g.IntN(90)
			for i := 0; i < n; i++ {
				x.Kids = append(x.Kids, &tExp{K: "probe", L: g.label(), Ok: ok})
			}
			if g.rng.p(0.6) {
				x.Kids[n-1-g.IntN(n)/2].Ok = !ok
			}
			return x
		}
		for i := 0; i < n; i++ {
			x.Kids = append(x.Kids, g.exp(pool, a, depth-1))
		}
		if x.K == "rep" && g.rng.p(g.t.leafErr*0.5) {
			x.Kids[g.IntN(n)] = &tExp{K: "nil", L: g.label()}
		}
		return x
	}
	switch weighted(g.rng, g.t.lMsg, g.t.lProbe, g.t.lSat) {
	case 1:
		x.K, x.Ok, x.Err = "probe", g.rng.p(0.6), g.rng.p(g.t.leafErr)
		if g.t.script > 0 && g.rng.p(g.t.script) {
			x.Rep = g.report(2)
			x.Rep.Fails = false
		}
	case 2:
		x.K = "sat"
		x.Sat = g.satOps(0)
	default:
		g.msgExp(x, pool, a)
	}
	return x
}

func (g *tGen) msgExp(x *tExp, pool []*poolMsg, a *tAct) {
	bind := a.K == "call" || a.Bind
	var types []string
	types = append(types, g.prod...)
	if bind {
		types = append(types, g.cmds...)
		if g.rng.p(0.3) {
			types = append(types, g.cons...)
		}
	}
	if len(types) == 0 {
		x.K, x.Ok = "probe", g.rng.p(0.5)
		return
	}
	x.K = []string{"eq", "typ", "match", "only"}[weighted(g.rng, g.t.eqShares, 1, g.t.matchShare, g.t.onlyShare)]
	x.V = g.IntN(2)
	x.T = pick(g.rng, types)
	x.M, x.B = "none", pick(g.rng, []string{"b0", "b1", "b2"})
	var src []*poolMsg
	for _, m := range pool {
		if typeByName[m.T].kind != "t" && (!m.Inj || bind || g.rng.p(0.3)) {
			for _, t := range types {
				if t == m.T {
					src = append(src, m)
					break
				}
			}
		}
	}
	if len(src) > 0 && g.rng.p(0.8) {
		m := pick(g.rng, src)
		if g.rng.p(0.4) {
			m = src[0]
		} else if g.rng.p(0.3) {
			m = src[len(src)-1]
		}
		x.T, x.M, x.B = m.T, m.M, m.B
		switch {
		case g.rng.p(0.1):
			x.B = pick(g.rng, []string{"b0", "b1", "b2", "b3"})
		case g.rng.p(0.15):
			x.M = "other"
		case x.K == "eq" && g.rng.p(g.t.near):
			x.M, x.Near = "near", x.M
		}
	}
	if g.rng.p(g.t.impossible) {
		x.T = pick(g.rng, append(append(typesOfKind("c"), typesOfKind("e")...), g.cons...))
	}
	if (x.K == "match" || x.K == "only") && g.rng.p(g.t.anyShare) {
		x.T = strings.ToUpper(typeByName[x.T].kind) + "*"
	}
	dec := []string{"ok", "rej", "rejk", "ign"}
	w := []float64{2, 1.5, 0.7, 0.7}
	if x.K == "only" {
		w = []float64{5, 0.7, 0.4, 1}
	}
	x.Pr = map[string]string{}
	for _, b := range []string{"b0", "b1", "b2"} {
		x.Pr[b] = dec[weighted(g.rng, w...)]
	}
}

func (g *tGen) satOps(depth int) []*satOp {
	var out []*satOp
	n := g.IntN(5)
	wide := depth == 0 && g.rng.p(g.t.wide)
	if wide {
		n = 10 + g.IntN(40)
	}
	for ; n > 0; n-- {
		o := &satOp{}
		switch {
		case wide && g.rng.p(0.9):
			g.clean++
			o.O, o.C = "cleanup", fmt.Sprintf("c%d", g.clean)
			if g.rng.p(0.1) {
				o.Body = g.satOps(2)
			}
		case g.rng.p(0.35) && depth < 3:
			g.clean++
			o.O, o.C = "cleanup", fmt.Sprintf("c%d", g.clean)
			o.Body = g.satOps(depth + 1)
		case g.rng.p(0.3):
			o.O = pick(g.rng, []string{"fail", "error", "errorf", "failnow", "fatal", "fatalf", "failnow"})
		case g.rng.p(0.25):
			o.O = pick(g.rng, []string{"skip", "skipnow", "skipf"})
		case g.rng.p(0.06):
			o.O = "panic"
			if g.s.Stop == "exit" && g.rng.p(0.4) {
				o.O = "goexit"
			}
		default:
			o.O = pick(g.rng, []string{"log", "logf", "helper", "name", "ask", "ask", "parallel"})
		}
		out = append(out, o)
	}
	return out
}

// annotate chooses what an annotation is about: a string or a message that may
// be shown by a report of a later step.
func (g *tGen) annotate(st *tStep, pools map[int][]*poolMsg, i int) {
	st.M = pick(g.rng, []string{"b0", "b1", "b2", "other"})
	var src []*poolMsg
	for j := i; j < len(g.s.Steps); j++ {
		src = append(src, pools[j]...)
	}
	if len(src) > 0 && g.rng.p(0.6) {
		m := pick(g.rng, src)
		st.M = m.M
		if g.rng.p(0.6) {
			st.T = m.T
		}
	}
}

// report returns what a scripted expectation reports.
func (g *tGen) report(depth int) *tRep {
	text := func() string {
		return g.label() + pick(g.rng, []string{"", " 100%", " %d of %s", " | bar", " (note)", " text: more", "\n  second\nthird", "\n\nafter a gap"})
	}
	line := func() string { return strings.SplitN(text(), "\n", 2)[0] }
	x := &tRep{Fails: g.rng.p(0.5)}
	if depth < 2 || g.rng.p(0.7) {
		x.Crit = line()
	}
	if g.rng.p(0.5) {
		x.Out = strings.ReplaceAll(line(), "(note)", "note")
	}
	if g.rng.p(0.5) {
		x.Exp = text()
	}
	titles := []string{"Notes", "Suggestions", "Log Messages", "Some Details"}
	for n := g.IntN(5); n > 0; n-- {
		a := &tAdd{T: pick(g.rng, titles), Item: g.rng.p(0.4)}
		if g.rng.p(0.85) {
			a.S = text()
		}
		x.Adds = append(x.Adds, a)
	}
	if depth > 0 {
		for n := g.IntN(6) - 3; n > 0; n-- {
			x.Subs = append(x.Subs, g.report(depth-1))
		}
	}
	return x
}
