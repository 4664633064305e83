package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

func main() {
	var (
		mode    = flag.String("mode", "engine", "kind of scenarios to run")
		prop    = flag.String("prop", "", "property whose alphabet selects the recorded events")
		alpha   = flag.String("alphabet", "", "file with the alphabets of the properties")
		in      = flag.String("in", "", "file of scenarios to replay, one JSON object per line")
		n       = flag.Int("n", 0, "number of generated scenarios")
		seed    = flag.Uint64("seed", 1, "seed of the generator")
		prof    = flag.String("profile", "mixed", "profile of the generator")
		out     = flag.String("out", "", "file for the recorded traces")
		isolate = flag.Bool("isolate", false, "run the scenarios in other processes")
		child   = flag.Int("child", -1, "internal")
		dump    = flag.String("dump", "", "file for the scenarios that were run")
	)
	flag.Parse()
	withLog = *prop == "C30"
	withRep = *prop == "C31"

	var pj proj
	if *alpha != "" && *prop != "" {
		b, err := os.ReadFile(*alpha)
		check(err)
		all := map[string]proj{}
		check(json.Unmarshal(b, &all))
		pj = all[*prop]
		if pj == nil {
			check(fmt.Errorf("no alphabet for %s", *prop))
		}
	}

	jobs := scenarios(*mode, *in, *n, *seed, *prof)

	if *child >= 0 {
		runChild(jobs, *child)
		return
	}

	stats := runStats{}
	results := make([][]byte, len(jobs))
	done := func(j int, evs []ev, over, crash bool) {
		p := pj.apply(evs)
		b := mustJSON(line{jobs[j].id, p})
		stats.m.Lock()
		defer stats.m.Unlock()
		results[j] = b
		stats.Scenarios++
		stats.Events += len(evs)
		stats.Projected += len(p)
		if over {
			stats.Overflow++
		}
		if crash {
			stats.Crashes++
		}
	}
	if *isolate {
		runIsolated(jobs, done)
	} else {
		runParallel(jobs, done)
	}
	stats.Stuck = int(stuckRuns.Load())

	w, err := os.Create(*out)
	check(err)
	bw := bufio.NewWriterSize(w, 1<<20)
	for _, b := range results {
		if b != nil {
			bw.Write(b)
			bw.WriteByte('\n')
		}
	}
	check(bw.Flush())
	check(w.Close())
	if *dump != "" {
		dumpScenarios(*dump, jobs)
	}
	fmt.Println(string(mustJSON(&stats)))
}

// runParallel runs all jobs in this process.
func runParallel(jobs []job, done func(int, []ev, bool, bool)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				evs, over := jobs[j].run(nil)
				done(j, evs, over, false)
			}
		}()
	}
	for j := range jobs {
		if stuckRuns.Load() >= maxStuck {
			break
		}
		ch <- j
	}
	close(ch)
	wg.Wait()
}

// maxStuck is the number of operations that may hang before the remaining
// scenarios are abandoned.
const maxStuck = 3

// runIsolated runs the jobs in other processes, so that one that crashes its
// process can be told.
func runIsolated(jobs []job, done func(int, []ev, bool, bool)) {
	var m sync.Mutex
	next, crashes := 0, 0
	const chunk = 20
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				m.Lock()
				j := next
				next += chunk
				stop := crashes >= 20
				m.Unlock()
				if j >= len(jobs) || stop {
					return
				}
				end := min(j+chunk, len(jobs))
				for j < end {
					n, crashed := isolated(jobs, j, end, done)
					j += n
					if crashed {
						m.Lock()
						crashes++
						m.Unlock()
					}
				}
			}
		}()
	}
	wg.Wait()
}

// isolated runs jobs[from:to] in a child process. It returns the number of jobs
// that were run, and whether the last of them crashed the process.
func isolated(jobs []job, from, to int, done func(int, []ev, bool, bool)) (int, bool) {
	args := append(append([]string{}, os.Args[1:]...), "-child", fmt.Sprint(from), "-isolate=false")
	c := exec.Command(os.Args[0], args...)
	c.Env = append(os.Environ(), "HARNESS_CHILD_END="+fmt.Sprint(to), "GOTRACEBACK=none")
	stderr := &bytes.Buffer{}
	c.Stderr = stderr
	p, err := c.StdoutPipe()
	check(err)
	check(c.Start())
	n := 0
	var evs []ev
	open := false
	s := bufio.NewScanner(p)
	s.Buffer(make([]byte, 1<<20), 1<<26)
	for s.Scan() {
		var e ev
		if json.Unmarshal(s.Bytes(), &e) != nil {
			break // cut off by a crash
		}
		switch e["e"] {
		case "#begin":
			open, evs = true, nil
		case "#end":
			done(from+n, evs, e["over"] == true, false)
			open = false
			n++
		default:
			evs = append(evs, e)
		}
	}
	for s.Scan() {
	}
	err = c.Wait()
	if err == nil && !open {
		return n, false
	}
	msg := stderr.String()
	if !open || !(strings.Contains(msg, "panic: ") || strings.Contains(msg, "fatal error: ")) || strings.Contains(msg, "harness: ") {
		check(fmt.Errorf("child failed: %v: %s", err, msg))
	}
	evs = append(evs, ev{"e": "crash"})
	done(from+n, evs, false, true)
	return n + 1, true
}

func runChild(jobs []job, from int) {
	to, err := strconv.Atoi(os.Getenv("HARNESS_CHILD_END"))
	check(err)
	for j := from; j < to; j++ {
		os.Stdout.Write(append(mustJSON(ev{"e": "#begin"}), '\n'))
		_, over := jobs[j].run(os.Stdout)
		os.Stdout.Write(append(mustJSON(ev{"e": "#end", "over": over}), '\n'))
	}
}

type runStats struct {
	m         sync.Mutex
	Scenarios int `json:"scenarios"`
	Events    int `json:"events"`
	Projected int `json:"projected"`
	Overflow  int `json:"overflow"`
	Stuck     int `json:"stuck"`
	Crashes   int `json:"crashes"`
}

type job struct {
	id  string
	run func(sink io.Writer) ([]ev, bool)
	sc  any
}

func dumpScenarios(file string, jobs []job) {
	f, err := os.Create(file)
	check(err)
	for _, j := range jobs {
		f.Write(mustJSON(j.sc))
		f.Write([]byte{'\n'})
	}
	check(f.Close())
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func readLines[T any](file string) []T {
	var out []T
	if file == "" {
		return nil
	}
	f, err := os.Open(file)
	check(err)
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<28)
	for s.Scan() {
		if len(s.Bytes()) == 0 {
			continue
		}
		var x T
		check(json.Unmarshal(s.Bytes(), &x))
		out = append(out, x)
	}
	check(s.Err())
	return out
}

func scenarios(mode, in string, n int, seed uint64, prof string) []job {
	var jobs []job
	switch mode {
	case "engine":
		for _, s := range readLines[*scenario](in) {
			jobs = append(jobs, engineJob(s))
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, engineJob(genScenario(prof, seed, i)))
		}
	case "conc":
		for _, s := range readLines[*concScenario](in) {
			jobs = append(jobs, concJob(s))
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, concJob(genConc(prof, seed, i)))
		}
	case "ids":
		for i := 0; i < n; i++ {
			jobs = append(jobs, idsJob(seed, i))
		}
	case "loop":
		for _, s := range readLines[*loopScenario](in) {
			jobs = append(jobs, loopJob(s))
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, loopJob(genLoop(prof, seed, i)))
		}
	case "blame":
		for _, s := range readLines[*blameScenario](in) {
			jobs = append(jobs, blameJob(s))
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, blameJob(genBlame(prof, seed, i)))
		}
	case "test":
		for _, s := range readLines[*tScenario](in) {
			jobs = append(jobs, testJob(s))
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, testGenJob(prof, seed, i))
		}
	case "multi", "multitest":
		f := multiEngineJob
		if mode == "multitest" {
			f = multiTestJob
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, f(prof, seed, i))
		}
	default:
		check(fmt.Errorf("unknown mode %q", mode))
	}
	return jobs
}

func engineJob(s *scenario) job {
	return job{s.ID, func(sink io.Writer) ([]ev, bool) {
		r := newRun(s)
		r.sink = sink
		r.execute()
		return r.close(), r.over
	}, s}
}
