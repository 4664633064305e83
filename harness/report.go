package main

import (
	"fmt"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"strings"

	"github.com/dogmatiq/dapper"
	"github.com/dogmatiq/testkit"
)

// withRep says whether the whole content of reports is recorded.
var withRep bool

// tRep is the report of a scripted expectation.
type tRep struct {
	Crit  string  `json:"crit,omitempty"`
	Out   string  `json:"out,omitempty"`
	Exp   string  `json:"exp,omitempty"`
	Adds  []*tAdd `json:"adds,omitempty"` // what is added to its sections, in order
	Subs  []*tRep `json:"subs,omitempty"`
	Fails bool    `json:"fails,omitempty"` // sub-reports only
}

// tAdd is an addition to a section. If it has no text the section is mentioned
// without adding anything to it.
type tAdd struct {
	T    string `json:"t"`
	S    string `json:"s,omitempty"`
	Item bool   `json:"item,omitempty"`
}

// fill makes a report say what is scripted.
func (x *tRep) fill(r *testkit.Report) {
	if x.Crit != "" {
		r.Criteria = x.Crit
	}
	r.Outcome, r.Explanation = x.Out, x.Exp
	for _, a := range x.Adds {
		s := r.Section(a.T)
		f, v := logArgs(a.S)
		switch {
		case a.S == "":
		case a.Item:
			s.AppendListItem(f, v...)
		default:
			s.Append(f, v...)
		}
	}
	for _, y := range x.Subs {
		sr := &testkit.Report{TreeOk: r.TreeOk, Ok: !y.Fails}
		y.fill(sr)
		r.Append(sr)
	}
}

func (x *tRep) ev() ev {
	if x == nil {
		return ev{"crit": "", "out": "", "exp": []string{}, "adds": []ev{}, "subs": []ev{}, "ok": true}
	}
	adds, subs := []ev{}, []ev{}
	for _, a := range x.Adds {
		s := a.S
		if a.Item && s != "" {
			s = "• " + s
		}
		adds = append(adds, ev{"t": strings.ToUpper(a.T), "ls": textLines(s)})
	}
	for _, y := range x.Subs {
		subs = append(subs, y.ev())
	}
	return ev{"crit": x.Crit, "out": x.Out, "exp": textLines(x.Exp), "adds": adds, "subs": subs, "ok": !x.Fails}
}

func textLines(s string) []string {
	if s == "" {
		return []string{}
	}
	return strings.Split(s, "\n")
}

// What a satisfaction function calls. Each call is on a line of its own.

type satFn struct {
	name   string // of the method that explains the outcome
	log    bool
	fn     func(*testkit.SatisfyT, string)
	helper func(*testkit.SatisfyT, string)
}

var satFns = map[string]satFn{
	"fail": {
		"Fail", false,
		func(t *testkit.SatisfyT, s string) { t.Fail() },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.Fail() },
	},
	"error": {
		"Error", true,
		func(t *testkit.SatisfyT, s string) { t.Error(satArgs(s)...) },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.Error(satArgs(s)...) },
	},
	"errorf": {
		"Errorf", true,
		func(t *testkit.SatisfyT, s string) { t.Errorf("%s%s", s[:1], s[1:]) },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.Errorf("%s", s) },
	},
	"failnow": {
		"FailNow", false,
		func(t *testkit.SatisfyT, s string) { t.FailNow() },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.FailNow() },
	},
	"fatal": {
		"Fatal", true,
		func(t *testkit.SatisfyT, s string) { t.Fatal(satArgs(s)...) },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.Fatal(satArgs(s)...) },
	},
	"fatalf": {
		"Fatalf", true,
		func(t *testkit.SatisfyT, s string) { t.Fatalf("%s%s", s[:1], s[1:]) },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.Fatalf("%s", s) },
	},
	"skip": {
		"Skip", true,
		func(t *testkit.SatisfyT, s string) { t.Skip(satArgs(s)...) },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.Skip(satArgs(s)...) },
	},
	"skipnow": {
		"SkipNow", false,
		func(t *testkit.SatisfyT, s string) { t.SkipNow() },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.SkipNow() },
	},
	"skipf": {
		"Skipf", true,
		func(t *testkit.SatisfyT, s string) { t.Skipf("%s%s", s[:1], s[1:]) },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.Skipf("%s", s) },
	},
	"log": {
		"", true,
		func(t *testkit.SatisfyT, s string) { t.Log(satArgs(s)...) },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.Log(satArgs(s)...) },
	},
	"logf": {
		"", true,
		func(t *testkit.SatisfyT, s string) { t.Logf("%s%s", s[:1], s[1:]) },
		func(t *testkit.SatisfyT, s string) { t.Helper(); t.Logf("%s", s) },
	},
}

var (
	satMid       = func(t *testkit.SatisfyT, s string, f func(*testkit.SatisfyT, string)) { f(t, s) }
	satMidHelper = func(t *testkit.SatisfyT, s string, f func(*testkit.SatisfyT, string)) { t.Helper(); f(t, s) }
	satOut       = func(f func()) { f() }
)

// satDeep is a helper that is called by n others.
func satDeep(t *testkit.SatisfyT, s string, f func(*testkit.SatisfyT, string), n int) {
	t.Helper()
	if n > 0 {
		satDeep(t, s, f, n-1)
		return
	}
	f(t, s)
}

// satArgs returns arguments that, as if printed, make the text s.
func satArgs(s string) []any {
	if i := strings.Index(s, "1 2"); i >= 0 {
		return []any{s[:i], 1, 2, s[i+3:]}
	}
	return []any{s}
}

func lineOf(fn any) string {
	pc := reflect.ValueOf(fn).Pointer()
	file, line := runtime.FuncForPC(pc).FileLine(pc)
	return fmt.Sprintf("%s:%d", filepath.Base(file), line)
}

// satCall makes a call that is described by e.
func (r *tRun) satCall(t *testkit.SatisfyT, c satFn, o, l string, e ev) func() {
	r.satN++
	n := r.satN
	txt := fmt.Sprintf("%s %s #%d 100%%d", o, l, n)
	if n%2 == 0 {
		txt += " 1 2 times"
	}
	if n%5 == 0 {
		txt += "\n  second line\n\nlast line %s"
	}
	f, m := c.fn, satMid
	at := lineOf(c.fn)
	if n%3 != 0 {
		f, at = c.helper, lineOf(satMid)
	}
	if n%3 == 2 {
		m = satMidHelper
	}
	if n%12 == 5 {
		m = func(t *testkit.SatisfyT, s string, f func(*testkit.SatisfyT, string)) {
			t.Helper()
			satDeep(t, s, f, 12)
		}
	}
	mid := func() { m(t, txt, f) }
	if n%3 == 2 {
		at = lineOf(mid)
	}
	if withRep {
		e["fn"], e["ls"], e["direct"], e["loc"] = c.name, []string{}, n%3 == 0, at
		if c.log {
			e["ls"] = textLines(txt)
		}
	}
	return mid
}

// The content of a report.

var (
	fieldRx = regexp.MustCompile(`\b(Key|Body|Box):\s+"([^"]*)"((?: <<.*?>>)*)`)
	annRx   = regexp.MustCompile(` <<.*?>>`)
	typeRx  = regexp.MustCompile(`'(\w+)'`)
	tailRx  = regexp.MustCompile(`\}((?: <<.*?>>)*)$`)
	addRx   = regexp.MustCompile(`(?s)\{\+(.*?)\+\}`)
	delRx   = regexp.MustCompile(`(?s)\[-(.*?)-\]`)
)

// reportNodes returns the parts of a report, and the lines that do not belong
// to any of them.
func reportNodes(s string) ([]ev, []string) {
	nodes, junk := []ev{}, []string{}
	var (
		cur   ev
		sects []ev
		ind   string
		blank int
	)
	flush := func() {
		if cur == nil {
			return
		}
		if sects == nil {
			sects = []ev{}
		}
		cur["sects"] = sects
		cur["df"] = diffOf(sects, cur["hd"].(string))
		nodes = append(nodes, cur)
	}
	lines := strings.Split(s, "\n")
	for i, ln := range lines {
		ln = strings.TrimRight(ln, " ")
		if i == 0 || ln == "" {
			continue
		}
		if m := nodeRE.FindStringSubmatch(ln); m != nil {
			flush()
			cur, sects, ind, blank = ev{"d": len(m[1]) / 4, "ok": m[2] == "✓", "hd": plain(m[3])}, nil, m[1], 0
			continue
		}
		rest, ok := strings.CutPrefix(ln, ind+"  |")
		switch {
		case !ok || cur == nil:
			junk = append(junk, ln)
		case rest == "":
			blank++
		case strings.HasPrefix(rest, "     ") && sects != nil:
			sc := sects[len(sects)-1]
			ls := sc["ls"].([]string)
			for ; blank > 0; blank-- {
				ls = append(ls, "")
			}
			sc["ls"] = append(ls, rest[5:])
		case strings.HasPrefix(rest, " ") && rest[1] != ' ':
			sects, blank = append(sects, ev{"t": rest[1:], "ls": []string{}}), 0
		default:
			junk = append(junk, ln)
		}
	}
	flush()
	return nodes, junk
}

// diffOf describes the two messages that a difference is shown of.
func diffOf(sects []ev, hd string) ev {
	typ := ""
	if g := typeRx.FindStringSubmatch(hd); g != nil {
		typ = g[1]
	}
	for _, s := range sects {
		if s["t"] != "MESSAGE DIFF" {
			continue
		}
		txt := strings.Join(s["ls"].([]string), "\n")
		s["ls"] = []string{}
		return ev{
			"on": true,
			"x":  side(typ, delRx.ReplaceAllString(addRx.ReplaceAllString(txt, ""), "$1")),
			"m":  side(typ, addRx.ReplaceAllString(delRx.ReplaceAllString(txt, ""), "$1")),
		}
	}
	none := side("", "")
	return ev{"on": false, "x": none, "m": none}
}

var printer = dapper.NewPrinter(dapper.WithPackagePaths(false), dapper.WithUnexportedStructFields(false))

// side describes one of the messages: its content, the annotations of its parts
// and of itself, and whether it is shown in full.
func side(typ, s string) ev {
	ann := func(s string) string { return strings.TrimSuffix(strings.TrimPrefix(s, " <<"), ">>") }
	o := ev{"m": "", "b": "", "ma": "", "ba": "", "xa": []string{}, "a": "", "full": false}
	for _, g := range fieldRx.FindAllStringSubmatch(s, -1) {
		switch g[1] {
		case "Key":
			o["m"], o["ma"] = g[2], ann(g[3])
		case "Body":
			o["b"], o["ba"] = g[2], ann(g[3])
		case "Box":
			o["xa"] = []string{ann(g[3])}
		}
	}
	if g := tailRx.FindStringSubmatch(s); g != nil {
		o["a"] = ann(g[1])
	}
	if mt, ok := typeByName[typ]; ok {
		o["full"] = annRx.ReplaceAllString(s, "") == printer.Format(mt.mk(o["m"].(string), o["b"].(string), ""))
	}
	return o
}
