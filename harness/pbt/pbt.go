// Package pbt drives rapid-based property checks: it shards the generated cases
// over worker processes, shrinks failures, confirms them by replaying the concrete
// case in a fresh process, and writes the evidence file.
package pbt

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// R collects the verdict on one case.
type R struct {
	nontrivial bool
	labels     []string
}

type failure struct{ msg string }

// Failf reports that the property does not hold on this case.
func (r *R) Failf(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// NonTrivial marks the case as one the property says something substantial about.
func (r *R) NonTrivial() { r.nontrivial = true }

// NonTrivialIf marks the case non-trivial when b holds.
func (r *R) NonTrivialIf(b bool) { r.nontrivial = r.nontrivial || b }

// Label counts the case under a class of the distribution report.
func (r *R) Label(format string, args ...any) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	r.labels = append(r.labels, format)
}

// Part is one generator/oracle pair of a property.
type Part struct {
	Name            string
	Quick, Thorough int // total cases over all workers
	gen             func(*rapid.T) any
	check           func(any, *R)
	decode          func([]byte) (any, error)
}

// P builds a part from a generator of JSON-able cases and an oracle over them.
func P[C any](name string, quick, thorough int, gen func(*rapid.T) C, check func(C, *R)) Part {
	return Part{
		Name: name, Quick: quick, Thorough: thorough,
		gen:   func(t *rapid.T) any { return gen(t) },
		check: func(c any, r *R) { check(c.(C), r) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
}

// Spec is a property's check.
type Spec struct {
	ID          string
	Rule        string
	Assumptions []string
	Parts       []Part
}

// Replay is the content of a replay file and of a regression corpus entry.
type Replay struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message,omitempty"`
	Case     json.RawMessage `json:"case"`
}

const (
	exitHang      = 77
	exitFail      = 78
	doesNotReturn = "does not return"
	workerCPUSecs = 30.0 // CPU time one case may use before it is suspected not to return
	replayCPUSecs = 90.0 // CPU time of the confirming run; ordinary cases take milliseconds
	maxDistinct   = 400000
)

type partResult struct {
	Evaluations int
	NonTrivial  int
	Labels      map[string]int
	Samples     []json.RawMessage
	Corpus      int
	Slowest     float64 // seconds
}

type workerResult struct {
	Parts    map[string]*partResult
	Failures []Replay
	Capped   bool
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// runCase applies the oracle; a panic of the code under test is a failure.
func runCase(p *Part, c any, r *R) (msg string, failed bool) {
	defer func() {
		if e := recover(); e != nil {
			failed = true
			if f, ok := e.(failure); ok {
				msg = f.msg
				return
			}
			msg = fmt.Sprintf("panic: %v", e)
			if os.Getenv("VERIF_STACK") != "" {
				msg += "\n" + string(debug.Stack())
			}
		}
	}()
	p.check(c, r)
	return "", false
}

// Try runs f and returns what it panicked with, if anything.
func Try(f func()) (val any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
		}
	}()
	f()
	panicked = false
	return nil, false
}

// tb is the rapid.TB used outside `go test`.
type tb struct {
	name   string
	failed bool
	out    bytes.Buffer
}

type tbFailNow struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.name }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.out, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.out, a...) }
func (t *tb) Skipf(f string, a ...any)  { panic("skip") }
func (t *tb) Skip(a ...any)             { panic("skip") }
func (t *tb) SkipNow()                  { panic("skip") }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; panic(tbFailNow{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// Main runs the check; it does not return.
func Main(s Spec) {
	for i, p := range s.Parts {
		for _, q := range s.Parts[:i] {
			if q.Name == p.Name {
				panic("duplicate part " + p.Name)
			}
		}
	}
	switch os.Getenv("VERIF_ROLE") {
	case "worker":
		worker(&s)
	case "replay":
		replayMain(&s)
	default:
		parent(&s)
	}
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// ---------------------------------------------------------------- worker

type watch struct {
	mu    sync.Mutex
	part  string
	c     any
	start float64
	busy  bool
	seq   int64
}

func (w *watch) begin(part string, c any) {
	w.mu.Lock()
	w.part, w.c, w.busy = part, c, true
	w.seq++
	w.mu.Unlock()
}

func (w *watch) end() {
	w.mu.Lock()
	w.busy, w.c = false, nil
	w.mu.Unlock()
}

// monitor ends the process when one case has used more than limit seconds of CPU.
func (w *watch) monitor(limit float64, hung func(part string, c any)) {
	var seq int64 = -1
	var start float64
	for {
		time.Sleep(250 * time.Millisecond)
		w.mu.Lock()
		busy, cur, part, c := w.busy, w.seq, w.part, w.c
		w.mu.Unlock()
		if !busy || cur != seq {
			seq, start = cur, cpuSeconds()
			continue
		}
		if cpuSeconds()-start > limit {
			hung(part, c)
			os.Exit(exitHang)
		}
	}
}

func silence() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Stdout = null
}

func limitProcess() {
	debug.SetMaxStack(512 << 20)
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{Cur: 0, Max: 0})
	if raceBuild { // the race detector maps far more than it uses
		return
	}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 7 << 29, Max: 7 << 29})
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "pbt:", err)
		os.Exit(3)
	}
}

func mustCase(c any) json.RawMessage {
	b, err := json.Marshal(c)
	if err != nil {
		fmt.Fprintln(os.Stderr, "pbt: case is not JSON-able:", err)
		os.Exit(3)
	}
	return b
}

func worker(s *Spec) {
	testing.Init()
	flag.Parse()
	silence()
	limitProcess()
	k, n := envInt("VERIF_WORKER", 0), envInt("VERIF_WORKERS", 1)
	dir := os.Getenv("VERIF_OUT")
	seed := envInt("VERIF_SEED", 1)
	deadline := time.Unix(int64(envInt("VERIF_DEADLINE", 0)), 0)
	journal := os.Getenv("VERIF_JOURNAL")
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "12s")

	res := workerResult{Parts: map[string]*partResult{}}
	distinct := map[uint64]struct{}{}
	var w watch
	go w.monitor(workerCPUSecs, func(part string, c any) {
		writeJSON(filepath.Join(dir, fmt.Sprintf("hang.%d.json", k)),
			Replay{Property: s.ID, Part: part, Message: doesNotReturn, Case: mustCase(c)})
	})

	only := os.Getenv("VERIF_PART")
	for pi := range s.Parts {
		p := &s.Parts[pi]
		if only != "" && p.Name != only {
			continue
		}
		pr := &partResult{Labels: map[string]int{}}
		res.Parts[p.Name] = pr

		run := func(c any, count bool) (string, bool) {
			if journal != "" {
				writeJSON(journal, Replay{Property: s.ID, Part: p.Name, Case: mustCase(c)})
			}
			var r R
			w.begin(p.Name, c)
			began := time.Now()
			msg, failed := runCase(p, c, &r)
			w.end()
			pr.Slowest = math.Max(pr.Slowest, time.Since(began).Seconds())
			if !count {
				return msg, failed
			}
			pr.Evaluations++
			for _, l := range r.labels {
				pr.Labels[l]++
			}
			if r.nontrivial {
				pr.NonTrivial++
				if len(distinct) < maxDistinct || len(pr.Samples) < 2 {
					b := mustCase(c)
					h := fnv.New64a()
					io.WriteString(h, p.Name)
					h.Write(b)
					if len(distinct) < maxDistinct {
						distinct[h.Sum64()] = struct{}{}
					}
					if len(pr.Samples) < 2 && pr.NonTrivial > 3 && len(b) < 1500 {
						pr.Samples = append(pr.Samples, b)
					}
				}
			}
			return msg, failed
		}

		if k == 0 {
			for _, rp := range corpus(s.ID) {
				if rp.Part != p.Name {
					continue
				}
				c, err := p.decode(rp.Case)
				if err != nil {
					fmt.Fprintln(os.Stderr, "pbt: corpus:", err)
					os.Exit(3)
				}
				pr.Corpus++
				if msg, failed := run(c, true); failed {
					res.Failures = append(res.Failures, Replay{Property: s.ID, Part: p.Name, Message: msg, Case: rp.Case})
				}
			}
		}

		total := p.Quick
		if tier() == "thorough" {
			total = p.Thorough
		}
		if f := os.Getenv("VERIF_SCALE"); f != "" {
			if x, err := strconv.ParseFloat(f, 64); err == nil {
				total = int(float64(total) * x)
			}
		}
		checks := (total + n - 1) / n
		if checks == 0 {
			continue
		}
		flag.Set("rapid.checks", strconv.Itoa(checks))
		flag.Set("rapid.seed", strconv.FormatUint(1+uint64(seed)*1000003+uint64(k)*7919*1000000007+uint64(pi)*104729*998244353, 10))

		var first, last *Replay
		capped := false
		t := &tb{name: s.ID + "/" + p.Name}
		_, panicked := Try(func() {
			rapid.Check(t, func(rt *rapid.T) {
				if capped || (first == nil && time.Now().After(deadline)) {
					capped = true
					return
				}
				c := p.gen(rt)
				msg, failed := run(c, first == nil)
				if failed {
					last = &Replay{Property: s.ID, Part: p.Name, Message: msg, Case: mustCase(c)}
					if first == nil {
						first = last
					}
					rt.Fatalf("%s", strings.SplitN(msg, ":", 2)[0])
				}
			})
		})
		if capped {
			res.Capped = true
		}
		if first != nil {
			best := last
			if len(best.Case) > len(first.Case) {
				best = first
			}
			res.Failures = append(res.Failures, *best)
		} else if t.failed || panicked {
			fmt.Fprintf(os.Stderr, "pbt: %s/%s: generator trouble:\n%s\n", s.ID, p.Name, t.out.String())
			os.Exit(3)
		}
	}
	hs := make([]byte, 0, 8*len(distinct))
	for h := range distinct {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("hashes.%d", k)), hs, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "pbt:", err)
		os.Exit(3)
	}
	writeJSON(filepath.Join(dir, fmt.Sprintf("result.%d.json", k)), res)
	os.Exit(0)
}

// corpus returns the committed regression cases of the property.
func corpus(id string) []Replay {
	files, _ := filepath.Glob(filepath.Join(verifDir(), "harness", "corpus", id, "*.json"))
	sort.Strings(files)
	var out []Replay
	for _, f := range files {
		b, err := os.ReadFile(f)
		var r Replay
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "pbt: corpus:", f, err)
			os.Exit(3)
		}
		out = append(out, r)
	}
	return out
}

// ---------------------------------------------------------------- replay

func replayMain(s *Spec) {
	testing.Init()
	flag.Parse()
	stdout := os.Stdout
	silence()
	limitProcess()
	b, err := os.ReadFile(os.Getenv("VERIF_CASE"))
	var rp Replay
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "pbt: replay:", err)
		os.Exit(3)
	}
	for i := range s.Parts {
		p := &s.Parts[i]
		if p.Name != rp.Part {
			continue
		}
		c, err := p.decode(rp.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, "pbt: replay:", err)
			os.Exit(3)
		}
		var w watch
		go w.monitor(replayCPUSecs, func(string, any) { fmt.Fprintln(stdout, "does not return") })
		began := time.Now()
		// Code that iterates over maps may fail on some runs only.
		for n := 0; n < 20 && time.Since(began) < 30*time.Second; n++ {
			var r R
			w.begin(p.Name, c)
			msg, failed := runCase(p, c, &r)
			w.end()
			if failed {
				fmt.Fprintln(stdout, msg)
				os.Exit(exitFail)
			}
		}
		os.Exit(0)
	}
	fmt.Fprintln(os.Stderr, "pbt: replay: no part", rp.Part)
	os.Exit(3)
}

// confirm replays one case in a fresh process. verdict: "fail", "hang", "crash", "pass" or "error".
func confirm(path string) (verdict, detail string) {
	wd, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return "error", err.Error()
	}
	defer os.RemoveAll(wd)
	if path, err = filepath.Abs(path); err != nil {
		return "error", err.Error()
	}
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VERIF_ROLE=replay", "VERIF_CASE="+path, "TMPDIR="+wd, "GOMAXPROCS=2", raceEnv(wd))
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &limitedWriter{w: &errb, n: 1 << 16}
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return "error", err.Error()
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(240 * time.Second):
		cmd.Process.Kill()
		<-done
		return "error", "replay made no progress"
	}
	var ee *exec.ExitError
	switch {
	case err == nil:
		return "pass", ""
	case errors.As(err, &ee) && ee.ExitCode() == exitFail:
		return "fail", strings.TrimSpace(out.String())
	case errors.As(err, &ee) && ee.ExitCode() == exitHang:
		return "hang", fmt.Sprintf("did not return within %.0f s of CPU time", replayCPUSecs)
	case errors.As(err, &ee) && ee.ExitCode() == 2:
		return "crash", strings.TrimSpace(strings.SplitN(errb.String(), "\n", 2)[0])
	}
	return "error", fmt.Sprint(err, " ", errb.String())
}

type limitedWriter struct {
	w io.Writer
	n int
}

func (l *limitedWriter) Write(b []byte) (int, error) {
	if l.n > 0 {
		m := min(l.n, len(b))
		l.w.Write(b[:m])
		l.n -= m
	}
	return len(b), nil
}

// ---------------------------------------------------------------- parent

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"pbt:"}, args...)...)
	os.Exit(3)
}

func parent(s *Spec) {
	start := time.Now()
	if len(os.Args) == 3 && os.Args[1] == "--replay" {
		v, d := confirm(os.Args[2])
		fmt.Println(v, d)
		switch v {
		case "pass":
			os.Exit(0)
		case "error":
			os.Exit(3)
		}
		fmt.Printf("\nVIOLATION property=%s replay=%s\n", s.ID, os.Args[2])
		os.Exit(1)
	}
	if len(os.Args) != 1 {
		fatal("usage: [--replay FILE]")
	}
	dir, err := os.MkdirTemp("", "verif-"+s.ID+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	n := envInt("VERIF_WORKERS", 8)
	budget := 240 * time.Second
	if tier() == "thorough" {
		budget = 3000 * time.Second
	}
	deadline := start.Add(budget)

	spawn := func(k int, journal string) error {
		cmd := exec.Command("/proc/self/exe")
		wd := filepath.Join(dir, fmt.Sprintf("w%d", k))
		os.MkdirAll(wd, 0o755)
		cmd.Dir = wd
		cmd.Env = append(os.Environ(), "VERIF_ROLE=worker", fmt.Sprint("VERIF_WORKER=", k), fmt.Sprint("VERIF_WORKERS=", n),
			"VERIF_OUT="+dir, fmt.Sprint("VERIF_DEADLINE=", deadline.Unix()), "VERIF_JOURNAL="+journal, "TMPDIR="+wd, "GOMAXPROCS=2", raceEnv(wd))
		errf := &limitedWriter{w: os.Stderr, n: 1000}
		cmd.Stderr = errf
		if err := cmd.Start(); err != nil {
			return err
		}
		t := time.AfterFunc(time.Until(deadline)+300*time.Second, func() { cmd.Process.Kill() })
		defer t.Stop()
		err := cmd.Wait()
		if errf.n < 1000 { // what it said may have been cut off in a line's middle
			fmt.Fprintln(os.Stderr)
		}
		return err
	}
	errs := make([]error, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() { defer wg.Done(); errs[k] = spawn(k, journalOf(dir, k)) }()
	}
	wg.Wait()

	var suspects []Replay // need confirmation in a fresh process
	var failures []Replay
	merged := map[string]*partResult{}
	distinct := map[uint64]struct{}{}
	capped, crashedUnexplained := false, 0
	collect := func(k int) {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d.json", k)))
		var res workerResult
		if err == nil {
			err = json.Unmarshal(b, &res)
		}
		if err != nil {
			fatal(err)
		}
		capped = capped || res.Capped
		failures = append(failures, res.Failures...)
		for name, pr := range res.Parts {
			m := merged[name]
			if m == nil {
				m = &partResult{Labels: map[string]int{}}
				merged[name] = m
			}
			m.Evaluations += pr.Evaluations
			m.NonTrivial += pr.NonTrivial
			m.Corpus += pr.Corpus
			m.Slowest = math.Max(m.Slowest, pr.Slowest)
			for l, c := range pr.Labels {
				m.Labels[l] += c
			}
			if len(m.Samples) < 2 {
				m.Samples = append(m.Samples, pr.Samples...)
			}
		}
		hs, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hashes.%d", k)))
		if err != nil {
			fatal(err)
		}
		for i := 0; i+8 <= len(hs); i += 8 {
			distinct[binary.LittleEndian.Uint64(hs[i:])] = struct{}{}
		}
	}
	for k := 0; k < n; k++ {
		if errs[k] == nil {
			collect(k)
			continue
		}
		var ee *exec.ExitError
		if !errors.As(errs[k], &ee) || ee.ExitCode() == 3 {
			fatal("worker", k, "could not run:", errs[k])
		}
		if ee.ExitCode() == exitHang {
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hang.%d.json", k)))
			var rp Replay
			if err != nil || json.Unmarshal(b, &rp) != nil {
				fatal("worker", k, "hang report unreadable")
			}
			suspects = append(suspects, rp)
			continue
		}
		crashedUnexplained++
		if raceBuild { // what crashes on a race may not do so again, but its case is known, and perhaps its race
			b, err := os.ReadFile(journalOf(dir, k))
			var rp Replay
			if err != nil || json.Unmarshal(b, &rp) != nil {
				fatal("worker", k, "died before its first case:", errs[k])
			}
			rp.Message = "crashes the process"
			if r := racesBelow(filepath.Join(dir, fmt.Sprintf("w%d", k))); r != "" {
				rp.Message += ", data race: " + r
				failures = append(failures, rp)
			} else {
				suspects = append(suspects, rp)
			}
			continue
		}
		if len(suspects) > 0 || len(failures) > 0 {
			continue
		}
		// The process died (stack exhaustion, out of memory, fatal error): find the case.
		j := filepath.Join(dir, "journal.json")
		err := spawn(k, j)
		b, rerr := os.ReadFile(j)
		var rp Replay
		if err == nil { // something outside ended it the first time, such as a lack of memory
			crashedUnexplained--
			collect(k)
			continue
		}
		if rerr != nil || json.Unmarshal(b, &rp) != nil {
			fatal("worker", k, "died before its first case:", errs[k])
		}
		rp.Message = "crashes the process"
		suspects = append(suspects, rp)
	}

	rdir := filepath.Join(verifDir(), "replay")
	save := func(rp Replay) string {
		if err := os.MkdirAll(rdir, 0o755); err != nil {
			fatal(err)
		}
		h := fnv.New32a()
		h.Write(rp.Case)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%08x.json", s.ID, rp.Part, h.Sum32()))
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fatal(err)
		}
		return path
	}
	violations := 0
	report := func(rp Replay) {
		violations++
		fmt.Printf("\nVIOLATION property=%s replay=%s\n", s.ID, save(rp))
		m := rp.Message
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		fmt.Printf("  part %s: %s\n", rp.Part, m)
	}
	best := map[string]Replay{}
	for _, rp := range failures {
		if b, ok := best[rp.Part]; !ok || len(rp.Case) < len(b.Case) {
			best[rp.Part] = rp
		}
	}
	for _, p := range s.Parts {
		if rp, ok := best[p.Name]; ok {
			report(rp)
		}
	}
	// Suspects are confirmed in a fresh process, the smallest first.
	sort.SliceStable(suspects, func(i, j int) bool { return len(suspects[i].Case) < len(suspects[j].Case) })
	for i, rp := range suspects {
		if violations > 0 || i == 3 {
			break
		}
		slow := rp.Message == doesNotReturn
		path := save(rp)
		v, d := confirm(path)
		for n := 0; raceBuild && !slow && n < 12 && (v == "pass" || v == "error"); n++ {
			v, d = confirm(path)
		}
		switch {
		case v == "pass" && slow: // it does return
			os.Remove(path)
			capped = true
			fmt.Fprintln(os.Stderr, "pbt: part", rp.Part, "had a slow case that does return")
		case v == "pass" || v == "error":
			os.Remove(path)
			os.RemoveAll(dir)
			fatal("a case looked non-terminating or crashing but did not do so again:", v, d)
		default:
			rp.Message = d
			report(rp)
		}
	}
	if violations == 0 && crashedUnexplained > 0 {
		fatal("worker died:", errs)
	}

	// Evidence.
	cov := map[string]any{"rule": s.Rule, "distinct_nontrivial": len(distinct)}
	evals, nt, corp := 0, 0, 0
	parts := map[string]any{}
	samples := []any{}
	for _, p := range s.Parts {
		m := merged[p.Name]
		if m == nil {
			continue
		}
		evals += m.Evaluations
		nt += m.NonTrivial
		corp += m.Corpus
		parts[p.Name] = map[string]any{"cases": m.Evaluations, "nontrivial": m.NonTrivial, "classes": m.Labels, "slowest_case_s": m.Slowest}
		for i, c := range m.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"part": p.Name, "case": c})
			}
		}
	}
	cov["evaluations"] = evals
	cov["nontrivial_total"] = nt
	cov["regression_cases"] = corp
	cov["parts"] = parts
	cov["samples"] = samples
	cov["stopped_by_time_cap"] = capped
	if s.Assumptions == nil {
		s.Assumptions = []string{}
	}
	ev := map[string]any{
		"property": s.ID, "tier": tier(), "seed": envInt("VERIF_SEED", 1), "level": "exploration",
		"coverage": cov, "assumptions": s.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	edir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(edir, 0o755)
	if err := os.WriteFile(filepath.Join(edir, s.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
	os.RemoveAll(dir)
	if violations > 0 {
		os.Exit(1)
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial) in %.1f s\n", s.ID, evals, len(distinct), time.Since(start).Seconds())
	os.Exit(0)
}
