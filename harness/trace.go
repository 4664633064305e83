package main

import (
	"encoding/json"
	"io"
	"sync"
	"time"
)

// Ev is one observable event of a trace.
type ev = map[string]any

// rec records the events of one scenario.
type rec struct {
	m    sync.Mutex
	base time.Time
	evs  []ev
	max  int
	over bool
	dead bool      // events are no longer accepted
	sink io.Writer // if set, each event is also written there at once
	to   *rec      // if set, events are recorded there
	g    string    // ... with this label
}

// overflow is the panic value used to abandon an operation that has caused
// more events than any legitimate one could.
type overflow struct{}

func newRec(base time.Time) *rec { return &rec{base: base, max: 4000} }

func (r *rec) add(e ev) {
	if r.to != nil {
		e["g"] = r.g
		defer func() { r.over = r.over || r.to.over }()
		r.to.add(e)
		return
	}
	r.m.Lock()
	defer r.m.Unlock()
	if r.dead {
		return
	}
	if len(r.evs) >= r.max {
		r.over = true
		panic(overflow{})
	}
	r.evs = append(r.evs, e)
	if r.sink != nil {
		r.sink.Write(append(mustJSON(e), '\n'))
	}
}

// guard keeps an overflow from ending the process.
func (r *rec) guard() {
	if v := recover(); v != nil {
		if _, over := v.(overflow); !over {
			panic(v)
		}
	}
}

// close stops recording, and returns what has been recorded.
func (r *rec) close() []ev {
	r.m.Lock()
	defer r.m.Unlock()
	r.dead = true
	return r.evs
}

const clamp = int64(1) << 30

// tm represents a time as <<seconds, nanoseconds>> relative to the scenario's
// base, so that it fits TLC's 32-bit integers.
func (r *rec) tm(t time.Time) []int64 {
	d := t.Unix() - r.base.Unix()
	if d > clamp {
		return []int64{clamp, 0}
	}
	if d < -clamp {
		return []int64{-clamp, 0}
	}
	return []int64{d, int64(t.Nanosecond())}
}

// line is one recorded scenario.
type line struct {
	ID string `json:"id"`
	Ev []ev   `json:"ev"`
}

// proj selects the events, and the fields of each, that one property looks at.
type proj map[string][]string

func (p proj) apply(evs []ev) []ev {
	if p == nil {
		return evs
	}
	var out []ev
	for _, e := range evs {
		k, _ := e["e"].(string)
		fields, ok := p[k]
		if !ok {
			continue
		}
		if len(fields) == 1 && fields[0] == "*" {
			out = append(out, e)
			continue
		}
		n := ev{"e": k}
		for _, f := range fields {
			if v, ok := e[f]; ok {
				n[f] = v
			}
		}
		out = append(out, n)
	}
	return out
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
