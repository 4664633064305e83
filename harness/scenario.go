package main

// A scenario is a closed program: an application, the operations performed on
// the engine, and what each handler does with each message. Scenarios come from
// the specification (TLC) or from the seeded generators in gen*.go.

type handlerCfg struct {
	N    string   `json:"n"`
	T    string   `json:"t"` // aggregate, process, integration, projection
	C    []string `json:"c"`
	P    []string `json:"p"`
	Dis  bool     `json:"dis"`
	Less bool     `json:"less,omitempty"` // process with a stateless root
}

type appCfg struct {
	Hs     []handlerCfg `json:"hs"`
	CDH    bool         `json:"cdh"`    // compaction during handling
	Resets int          `json:"resets"` // number of reset functions
}

type opCfg struct {
	Op   string  `json:"op"` // dispatch, tick, reset
	M    string  `json:"m,omitempty"`
	T    string  `json:"t,omitempty"`
	Bad  bool    `json:"bad,omitempty"`
	Now  []int64 `json:"now,omitempty"` // offset from base; absent: wall clock
	TZ   int     `json:"tz,omitempty"`
	Opts []any   `json:"opts,omitempty"` // [kind, name, bool]
	Ctx  string  `json:"ctx,omitempty"`  // "", "can", "pre"
	Obs  int     `json:"obs,omitempty"`  // number of additional observers
	Dl   int64   `json:"dl,omitempty"`   // seconds until the context's deadline; absent: none
	Via  bool    `json:"via,omitempty"`  // dispatch commands with engine.CommandExecutor
}

// script is what one handler does with one message.
type script struct {
	Route    string `json:"route,omitempty"`
	RouteNo  bool   `json:"routeno,omitempty"`
	RouteEnd string `json:"routeend,omitempty"` // "", err, panic, unexp
	New      string `json:"new,omitempty"`      // "", nil, panic
	Ops      []sop  `json:"ops,omitempty"`
	End      string `json:"end,omitempty"` // "", err, panic, unexp

	// Projections.
	RV    string `json:"rv,omitempty"` // "", err, panic, set
	OK    bool   `json:"ok,omitempty"`
	Close string `json:"close,omitempty"` // "", err, panic
	Comp  *comp  `json:"comp,omitempty"`  // compaction started by handling

	// Events: behaviour of ApplyEvent.
	Apply string `json:"apply,omitempty"` // "", or a list of panic1, panic2, ...
}

type comp struct {
	Logs []string `json:"logs,omitempty"` // "!cancel" cancels the context instead
	End  string   `json:"end,omitempty"`  // "", err, panic
	Gate string   `json:"gate,omitempty"` // "", slow, log, late
}

// sop is one call that a handler makes to its scope.
type sop struct {
	O   string  `json:"o"` // rec, exec, sched, destroy, end, log, cancel
	P   string  `json:"p,omitempty"`
	T   string  `json:"t,omitempty"`
	Bad bool    `json:"bad,omitempty"`
	Rec bool    `json:"rec,omitempty"` // recover if the call panics
	At  []int64 `json:"at,omitempty"`  // sched: offset from the operation's time
	TZ  int     `json:"tz,omitempty"`
}

type scenario struct {
	ID   string             `json:"id"`
	App  appCfg             `json:"app"`
	Ops  []opCfg            `json:"ops"`
	Beh  map[string]*script `json:"beh,omitempty"`  // "msg|handler"
	Comp map[string]*comp   `json:"comp,omitempty"` // "handler#n": n-th compaction by tick

	lazy func(key, handler string) *script
	lcmp func(handler string, n int) *comp
}

func (s *scenario) script(key, handler string) *script {
	if x, ok := s.Beh[key+"|"+handler]; ok {
		return x
	}
	if s.lazy != nil {
		return s.lazy(key, handler)
	}
	return &script{Route: "i1", OK: true}
}
