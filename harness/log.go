package main

import (
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// withLog says whether lines that are logged are recorded.
var withLog bool

var (
	lineRx = regexp.MustCompile(`(?s)^= (\S+)  ∵ (\S+)  ⋲ (\S+)  (.) (.) (.) (?: (.*))?$`)
	dateRx = regexp.MustCompile(`\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\d(?:Z|[+-]\d\d:\d\d)`)
	byRx   = regexp.MustCompile(`\badvancing time by (\S+)`)
	nearRx = regexp.MustCompile(`\bnear \S+`)

	iconWho = map[string]string{"∴": "aggregate", "≡": "process", "⨝": "integration", "Σ": "projection", "⚙": "system"}
	iconDir = map[string]string{" ": "", "▼": "in", "▽": "inerr", "▲": "out", "△": "outerr"}
	iconErr = map[string]string{" ": "", "✖": "err"}
)

// logEv describes something that was logged.
func logEv(s string) ev {
	if t, ok := strings.CutPrefix(s, "--- "); ok {
		if t, ok := strings.CutSuffix(t, " ---"); ok {
			return ev{"e": "cap", "txt": plain(t)}
		}
	}
	g := lineRx.FindStringSubmatch(s)
	if g == nil {
		return ev{"e": "ln", "id": "?", "ca": "?", "co": "?", "d": "?", "w": "?", "x": "?", "txt": []string{s}}
	}
	txt := []string{}
	if g[7] != "" {
		txt = strings.Split(g[7], " ● ")
	}
	for i, t := range txt {
		txt[i] = plain(t)
	}
	icon := func(m map[string]string, s string) string {
		if x, ok := m[s]; ok {
			return x
		}
		return "?"
	}
	return ev{"e": "ln", "id": g[1], "ca": g[2], "co": g[3], "d": icon(iconDir, g[4]), "w": icon(iconWho, g[5]), "x": icon(iconErr, g[6]), "txt": txt}
}

// plain replaces times, durations, message types and locations in a text.
func plain(s string) string {
	s = dateRx.ReplaceAllStringFunc(s, func(d string) string {
		t, err := time.Parse(time.RFC3339, d)
		if err != nil {
			return d
		}
		return "@" + strconv.FormatInt(max(t.Unix()-base.Unix(), -clamp), 10)
	})
	s = byRx.ReplaceAllStringFunc(s, func(m string) string {
		d, err := time.ParseDuration(byRx.FindStringSubmatch(m)[1])
		if err != nil {
			return m
		}
		return "advancing time by " + strconv.FormatInt(int64(d/time.Second), 10) + "s" + strconv.FormatInt(int64(d%time.Second), 10)
	})
	s = nearRx.ReplaceAllString(s, "near @")
	for _, t := range typeStrings() {
		s = strings.ReplaceAll(s, t, typeByString[t])
	}
	return s
}

func typeStrings() []string {
	if typeStrs == nil {
		for t := range typeByString {
			typeStrs = append(typeStrs, t)
		}
		sort.Slice(typeStrs, func(i, j int) bool { return len(typeStrs[i]) > len(typeStrs[j]) })
	}
	return typeStrs
}

var typeStrs []string

// logArgs splits what a handler logs into a format and its arguments.
func logArgs(p string) (string, []any) {
	switch n := len(p) % 3; {
	case n == 0:
		return strings.ReplaceAll(p, "%", "%%"), nil
	case n == 1:
		i := len(p) / 2
		return "%s%v", []any{p[:i], p[i:]}
	default:
		return "%s", []any{p}
	}
}
