package main

import (
	"context"
	"fmt"
	"io"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
)

// Several engines, or several tests, share one application. They take turns,
// and some turns are taken while a handler of another one is at work.

type multi struct {
	*rec
	rng
	sh *sharing
	ps []*player
}

type player struct {
	r      *run
	conc   func() bool
	turn   func() bool // false: there is nothing left to do
	active bool
	done   bool
}

var labels = []string{"a", "b", "c"}

func (m *multi) join(g string, r *rec) {
	r.to, r.g = m.rec, g
}

// take lets a player take a turn.
func (m *multi) take(p *player) {
	p.active = true
	defer m.sh.enter(p.r)()
	p.done = !p.turn() || p.r.stuck || m.over
	p.active = false
	if p.r.stuck {
		for _, p := range m.ps {
			p.done = true
		}
	}
}

func (m *multi) idle() []*player {
	var out []*player
	for _, p := range m.ps {
		if !p.done && !p.active {
			out = append(out, p)
		}
	}
	return out
}

// meanwhile is called while a player's turn is in progress.
func (m *multi) meanwhile() {
	for _, p := range m.ps {
		if p.active && p.conc() {
			return
		}
	}
	for m.rng.p(0.15) {
		ps := m.idle()
		if len(ps) == 0 {
			return
		}
		m.take(pick(m.rng, ps))
	}
}

func (m *multi) play() {
	defer m.guard()
	for {
		ps := m.idle()
		if len(ps) == 0 {
			return
		}
		m.take(pick(m.rng, ps))
	}
}

// Engines.

func multiEngineJob(prof string, seed uint64, idx int) job {
	id := fmt.Sprintf("%s/%d/%d", prof, seed, idx)
	return job{id, func(sink io.Writer) ([]ev, bool) {
		p := profile(prof)
		g := newRng(seed, "multi", prof, fmt.Sprint(idx))
		a, insts := g.app(p), g.insts(p)
		m := &multi{rec: newRec(base), rng: g}
		m.sink = sink
		var cfg configkit.RichApplication
		for _, l := range labels[:2+g.IntN(2)] {
			s := genWith(p, seed, newRng(seed, "multi", prof, fmt.Sprint(idx), l), id+"/"+l, a, "m"+l, insts)
			r := newRun(s)
			m.join(l, r.rec)
			if m.sh == nil {
				m.sh = share(r)
				cfg = configkit.FromApplication(m.sh)
			}
			r.cfg, r.meanwhile = cfg, m.meanwhile
			var e *engine.Engine
			m.ps = append(m.ps, &player{r: r, conc: func() bool { return false }, turn: func() bool {
				if e == nil {
					r.add(r.appEv())
					e = r.newEngine()
					return true
				}
				if r.opN == len(s.Ops) {
					r.add(ev{"e": "end"})
					return false
				}
				r.opN++
				r.doOp(e, s.Ops[r.opN-1])
				return true
			}})
		}
		m.play()
		return m.close(), m.over
	}, ev{"id": id}}
}

// Tests.

func multiTestJob(prof string, seed uint64, idx int) job {
	id := fmt.Sprintf("%s/%d/%d", prof, seed, idx)
	return job{id, func(sink io.Writer) ([]ev, bool) {
		s := &tScenario{ID: id}
		genTest(s, prof, seed, idx)
		// No command is executed twice, so that each message has a name.
		once := func(x *tIcpt) {
			if x != nil {
				x.Do = min(x.Do, 1)
			}
		}
		once(s.Begin.Icpt)
		for _, st := range s.Steps {
			for _, a := range st.Acts {
				once(a.Icpt)
				for _, b := range a.Body {
					if b.K == "go" {
						b.K = "ex"
					}
				}
			}
		}
		g := newRng(seed, "multi", prof, fmt.Sprint(idx))
		m := &multi{rec: newRec(base), rng: g}
		m.sink = sink
		ts := &tShare{acts: map[*tAct]testkit.Action{}, exps: map[*tExp]testkit.Expectation{}, by: map[*run]*tRun{}}
		var stop []context.CancelFunc
		defer func() {
			for _, f := range stop {
				f()
			}
		}()
		drop := []float64{0, 0.2, 0.5}[g.IntN(3)]
		for _, l := range labels[:2+g.IntN(2)] {
			r := newTRun(s)
			m.join(l, r.rec)
			if m.sh == nil {
				m.sh = share(r.run)
				ts.sharing = m.sh
			}
			r.shared, r.run.meanwhile = ts, m.meanwhile
			ts.by[r.run] = r
			i := -1
			m.ps = append(m.ps, &player{r: r.run, conc: func() bool { return r.conc }, turn: func() bool {
				i++
				switch {
				case i == 0:
					stop = append(stop, r.begin())
				case i > len(s.Steps):
					r.add(ev{"e": "end"})
					return false
				case g.p(drop):
				default:
					return r.next(i - 1)
				}
				return true
			}})
		}
		m.play()
		return m.close(), m.over
	}, ev{"id": id}}
}
