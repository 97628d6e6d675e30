package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Result is what one executed case says.
type Result struct {
	Fail       string   // description of the violation, "" when the property held
	Infra      string   // infrastructure problem: no verdict
	NonTrivial bool     // the case exercised what the property is about (see Prop.Rule)
	Classes    []string // classification labels for the distribution in the evidence
}

func fail(format string, args ...any) Result { return Result{Fail: fmt.Sprintf(format, args...)} }
func infra(format string, args ...any) Result {
	return Result{Infra: fmt.Sprintf(format, args...)}
}

// Env is the per-case environment inside an executor process.
type Env struct {
	Root      string // scratch root of this executor (persistent over cases)
	Dir       string // fresh scratch directory of this case; the working directory while the case runs
	Tier      string
	Race      bool   // the tool runs with the race detector (when there is one)
	Log       string // level of the log output of the tool, if not the default one
	FileLimit int    // maximum size of a file the tool can write, if not 0
}

// Prop is one property together with the generator and oracle deciding it.
type Prop struct {
	ID          string
	Rule        string
	Quick       int // number of generated cases, summed over all shards
	Thorough    int
	Level       string
	Assumptions []string
	Confirm     int           // how often a failure is tried again when the schedule is not fixed by the case
	Cpu         time.Duration // CPU budget of one case, default cpuBudgetPerCase
	Gen         func(t *rapid.T) any
	Decode      func(b []byte) (any, error)
	Run         func(env *Env, c any) Result
	// OnCrash judges a case in which the code under test ended the process (fatal error, panic, exhausted CPU budget).
	OnCrash func(c any, how string) Result
}

var props = map[string]*Prop{}

func register[C any](p *Prop, gen func(t *rapid.T) C, run func(env *Env, c C) Result) {
	p.Gen = func(t *rapid.T) any { return gen(t) }
	p.Decode = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	p.Run = func(env *Env, c any) Result { return run(env, c.(C)) }
	if p.OnCrash == nil {
		p.OnCrash = func(c any, how string) Result { return fail("%s", how) }
	}
	if p.Cpu == 0 {
		p.Cpu = cpuBudgetPerCase
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	if _, dup := props[p.ID]; dup {
		panic("duplicate property " + p.ID)
	}
	props[p.ID] = p
}

const (
	cpuBudgetPerCase  = 40 * time.Second // CPU seconds one case may burn before it counts as not terminating
	stallBudget       = 150 * time.Second
	exitHang          = 97
	softWallQuick     = 240 * time.Second
	softWallThorough  = 3000 * time.Second
	shrinkTime        = "12s"
	maxSamples        = 3
	maxSampleBytes    = 1500
	maxKeptStderrTail = 3000
)

// ---------------------------------------------------------------------------------------------------------------------
// Executor: runs cases in a process of its own, so that os.Exit, panics and endless loops of the code under test are
// observations and not the end of the search.

type execReq struct {
	Case json.RawMessage
}

type execResp struct {
	Res   Result
	Panic string
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func executorMain(id, root, tier string) {
	p := props[id]
	out := bufio.NewWriter(os.NewFile(3, "resp"))
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	debug.SetMaxStack(256 << 20)

	var caseStartCpu atomic.Int64
	caseStartCpu.Store(-1)
	parent := os.Getppid()
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if os.Getppid() != parent {
				os.Exit(0) // the shard is gone
			}
			if s := caseStartCpu.Load(); s >= 0 && cpuTime()-time.Duration(s) > p.Cpu {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "HANG: case used more than %s of CPU time\n%s", p.Cpu, buf[:n])
				os.Exit(exitHang)
			}
		}
	}()

	n := 0
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req execReq
		if err := json.Unmarshal(line, &req); err != nil {
			fmt.Fprintln(os.Stderr, "executor: bad request", err)
			os.Exit(98)
		}
		c, err := p.Decode(req.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, "executor: bad case", err)
			os.Exit(98)
		}
		n++
		env := &Env{Root: root, Dir: filepath.Join(root, "case"), Tier: tier}
		_ = os.Chdir(root)
		must(os.RemoveAll(env.Dir))
		must(os.MkdirAll(env.Dir, 0o755))
		must(os.Chdir(env.Dir))
		caseStartCpu.Store(int64(cpuTime()))
		resp := runGuarded(p, env, c)
		caseStartCpu.Store(-1)
		b, err := json.Marshal(resp)
		must(err)
		_, _ = out.Write(append(b, '\n'))
		_ = out.Flush()
	}
}

func runGuarded(p *Prop, env *Env, c any) (resp execResp) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				resp.Res = infra("%s", string(h))
				return
			}
			st := string(debug.Stack())
			resp.Panic = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
		}
	}()
	resp.Res = p.Run(env, c)
	return
}

type harnessError string

func must(err error) {
	if err != nil {
		panic(harnessError("harness: " + err.Error()))
	}
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/src/") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 8 {
		keep = keep[:8]
	}
	return strings.Join(keep, "\n")
}

type executor struct {
	p      *Prop
	root   string
	tier   string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuffer
	spawns int
}

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 2*maxKeptStderrTail {
		// keep the head of a panic message: it is at the start of what was written last
		t.b = t.b[len(t.b)-maxKeptStderrTail:]
	}
	return len(p), nil
}
func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func (e *executor) start() error {
	e.spawns++
	self, err := os.Executable()
	if err != nil {
		return err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd := exec.Command(self, "exec", e.p.ID, e.root, e.tier)
	cmd.ExtraFiles = []*os.File{w}
	cmd.Stdout = nil
	e.stderr = &tailBuffer{}
	cmd.Stderr = e.stderr
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=4")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	w.Close()
	e.cmd, e.in, e.out = cmd, in, bufio.NewReaderSize(r, 1<<20)
	return nil
}

func (e *executor) stop() {
	if e.cmd != nil {
		_ = syscall.Kill(-e.cmd.Process.Pid, syscall.SIGKILL)
		_ = e.cmd.Process.Kill()
		_ = e.cmd.Wait()
		e.cmd = nil
	}
}

// run executes one case. A dead executor is judged by the property's OnCrash.
func (e *executor) run(c any) Result {
	if e.cmd == nil {
		if err := e.start(); err != nil {
			return infra("cannot start executor: %v", err)
		}
	}
	b, err := json.Marshal(c)
	if err != nil {
		return infra("marshal: %v", err)
	}
	req, _ := json.Marshal(execReq{Case: b})
	if _, err := e.in.Write(append(req, '\n')); err != nil {
		e.stop()
		return infra("executor not accepting input: %v", err)
	}
	type rd struct {
		line []byte
		err  error
	}
	ch := make(chan rd, 1)
	out := e.out
	go func() { l, err := out.ReadBytes('\n'); ch <- rd{l, err} }()
	select {
	case r := <-ch:
		if r.err == nil {
			var resp execResp
			if err := json.Unmarshal(r.line, &resp); err != nil {
				e.stop()
				return infra("bad response: %v", err)
			}
			if resp.Panic != "" {
				e.stop() // state may be inconsistent (locks): use a fresh process for the next case
				return e.p.OnCrash(c, resp.Panic)
			}
			return resp.Res
		}
	case <-time.After(stallBudget):
		e.stop()
		return infra("case neither ended nor used its CPU budget within %s", stallBudget)
	}
	err = e.cmd.Wait()
	code := e.cmd.ProcessState.ExitCode()
	st := e.cmd.ProcessState
	e.cmd = nil
	tail := e.stderr.String()
	if code == 98 {
		return infra("executor: %s", tail)
	}
	if code == exitHang {
		return e.p.OnCrash(c, "did not terminate within its CPU budget: "+trimStack(tail))
	}
	if code == -1 {
		// killed by a signal (out of memory?): no verdict
		if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return infra("executor was killed (memory?)")
		}
	}
	return e.p.OnCrash(c, fmt.Sprintf("process ended with exit code %d: %s", code, lastLines(tail, 12)))
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	// a Go crash report starts with "panic:" or "fatal error:": begin there
	for i, x := range l {
		if strings.HasPrefix(x, "panic:") || strings.HasPrefix(x, "fatal error:") || strings.HasPrefix(x, "runtime: ") {
			l = l[i:]
			if len(l) > n {
				l = l[:n]
			}
			return strings.Join(l, "\n")
		}
	}
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

// ---------------------------------------------------------------------------------------------------------------------
// Shard: one process searching with rapid from one seed.

type shardSummary struct {
	Evaluations int
	NonTrivial  []string // hashes of the distinct non-trivial cases
	Classes     map[string]int
	Samples     []json.RawMessage
	FailCase    json.RawMessage
	FailMsg     string
	Infra       string
	TimedOut    bool
}

type quietTB struct {
	failed bool
	logs   []string
}

func (q *quietTB) Helper()                   {}
func (q *quietTB) Name() string              { return "check" }
func (q *quietTB) Logf(f string, a ...any)   { q.logs = append(q.logs, fmt.Sprintf(f, a...)) }
func (q *quietTB) Log(a ...any)              { q.logs = append(q.logs, fmt.Sprint(a...)) }
func (q *quietTB) Skipf(f string, a ...any)  {}
func (q *quietTB) Skip(a ...any)             {}
func (q *quietTB) SkipNow()                  { runtime.Goexit() }
func (q *quietTB) Errorf(f string, a ...any) { q.failed = true; q.Logf(f, a...) }
func (q *quietTB) Error(a ...any)            { q.failed = true; q.Log(a...) }
func (q *quietTB) Fatalf(f string, a ...any) { q.failed = true; q.Logf(f, a...); runtime.Goexit() }
func (q *quietTB) Fatal(a ...any)            { q.failed = true; q.Log(a...); runtime.Goexit() }
func (q *quietTB) FailNow()                  { q.failed = true; runtime.Goexit() }
func (q *quietTB) Fail()                     { q.failed = true }
func (q *quietTB) Failed() bool              { return q.failed }

func caseHash(b []byte) string {
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:8])
}

func shardMain(id string, seed uint64, cases int, outFile, root, tier string, deadline time.Time) {
	p := props[id]
	e := &executor{p: p, root: root, tier: tier}
	sum := shardSummary{Classes: map[string]int{}}
	distinct := map[string]bool{}
	failed := false

	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	set := func(k, v string) { must(flag.Set(k, v)) }
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.checks", strconv.Itoa(cases))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", shrinkTime)

	var infraSeen string
	tb := &quietTB{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			c := p.Gen(t)
			if infraSeen != "" {
				return
			}
			if !failed && time.Now().After(deadline) {
				sum.TimedOut = true
				return
			}
			b, err := json.Marshal(c)
			if err != nil {
				infraSeen = err.Error()
				return
			}
			res := e.run(c)
			if res.Infra != "" {
				// once more in a fresh process: a passing hiccup (memory, a busy machine) is no verdict
				e.stop()
				res = e.run(c)
			}
			if res.Infra != "" {
				if !failed {
					infraSeen = res.Infra
					sum.FailCase = b
				}
				return
			}
			if res.Fail != "" {
				failed = true
				sum.FailCase = b
				sum.FailMsg = res.Fail
				t.Fatalf("violated")
			}
			if !failed {
				sum.Evaluations++
				for _, cl := range res.Classes {
					sum.Classes[cl]++
				}
				if res.NonTrivial {
					h := caseHash(b)
					if !distinct[h] {
						distinct[h] = true
						if len(sum.Samples) < maxSamples && len(b) <= maxSampleBytes {
							sum.Samples = append(sum.Samples, b)
						}
					}
				}
			}
		})
	}()
	<-done
	if failed {
		infraSeen = ""
	}
	if !failed && infraSeen == "" && tb.failed {
		infraSeen = "rapid: " + strings.Join(tb.logs, "; ")
	}
	sum.Infra = infraSeen
	for h := range distinct {
		sum.NonTrivial = append(sum.NonTrivial, h)
	}
	sort.Strings(sum.NonTrivial)
	e.stop()
	b, err := json.Marshal(sum)
	must(err)
	must(os.WriteFile(outFile, b, 0o644))
}

// ---------------------------------------------------------------------------------------------------------------------
// Check: the parent, one per property and run.

type knownFinding struct {
	Property string
	Key      string
	What     string
}

func loadKnown(verifDir, id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		key, what, _ := strings.Cut(rest, " ")
		out = append(out, knownFinding{id, strings.TrimPrefix(key, "case="), what})
	}
	return out
}

func checkMain(id, verifDir, tier string) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	if seed < 0 {
		seed = -seed
	}
	total := p.Quick
	wall := softWallQuick
	if tier == "thorough" {
		total = p.Thorough
		wall = softWallThorough
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			total = n
		}
	}
	root, err := os.MkdirTemp(scratchBase(), "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer removeRoot(root)

	// regression corpus: committed cases (shrunk failures of earlier runs and hand-picked corners), replayed first
	evals := 0
	var corpusFail string
	var corpusCase []byte
	ex := &executor{p: p, root: mkdir(root, "corpus"), tier: tier}
	defer ex.stop()
	corpus, _ := filepath.Glob(filepath.Join(verifDir, "corpus", id, "*.json"))
	sort.Strings(corpus)
	corpusRun := 0
	for _, f := range corpus {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		c, err := p.Decode(b)
		if err != nil {
			fmt.Fprintln(os.Stderr, "corpus", f, err)
			return 2
		}
		r := ex.run(c)
		if r.Infra != "" {
			fmt.Fprintln(os.Stderr, "ERROR:", f, r.Infra)
			return 2
		}
		corpusRun++
		evals++
		if r.Fail != "" && corpusFail == "" {
			corpusFail, corpusCase = r.Fail, b
		}
	}

	known := loadKnown(verifDir, id)
	for _, k := range known {
		b, err := os.ReadFile(filepath.Join(verifDir, "known", k.Key+".json"))
		if err != nil {
			fmt.Fprintln(os.Stderr, "known finding without case:", k.Key)
			return 2
		}
		c, err := p.Decode(b)
		if err != nil {
			fmt.Fprintln(os.Stderr, "known finding", k.Key, err)
			return 2
		}
		r := ex.run(c)
		if r.Infra != "" {
			fmt.Fprintln(os.Stderr, "ERROR:", k.Key, r.Infra)
			return 2
		}
		if r.Fail != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	ex.stop()

	shards := 8
	if s := os.Getenv("VERIF_SHARDS"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			shards = n
		}
	}
	per := (total + shards - 1) / shards
	self, _ := os.Executable()
	deadline := start.Add(wall)
	sums := make([]*shardSummary, shards)
	errsS := make([]string, shards)
	var wg sync.WaitGroup
	cmds := make([]*exec.Cmd, shards)
	var mu sync.Mutex
	stopping := false
	if corpusFail == "" {
		for i := 0; i < shards; i++ {
			sr := mkdir(root, fmt.Sprintf("s%d", i))
			of := filepath.Join(root, fmt.Sprintf("sum%d.json", i))
			s := uint64(seed)*1000003 + uint64(i)*7919 + 1
			cmd := exec.Command(self, "shard", id, strconv.FormatUint(s, 10), strconv.Itoa(per), of, sr, tier, strconv.FormatInt(deadline.UnixNano(), 10))
			tail := &tailBuffer{}
			cmd.Stderr = tail
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			cmds[i] = cmd
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				runtime.LockOSThread() // Pdeathsig is tied to the thread that forked
				if err := cmd.Start(); err != nil {
					errsS[i] = err.Error()
					return
				}
				err := cmd.Wait()
				b, rerr := os.ReadFile(of)
				var sm shardSummary
				if rerr != nil || json.Unmarshal(b, &sm) != nil {
					mu.Lock()
					if !stopping {
						errsS[i] = fmt.Sprintf("shard %d: %v: %s", i, err, lastLines(tail.String(), 10))
					}
					mu.Unlock()
					return
				}
				sums[i] = &sm
				if sm.FailMsg != "" {
					mu.Lock()
					if !stopping {
						stopping = true
						go func() {
							time.Sleep(3 * time.Second)
							for _, c := range cmds {
								if c != nil && c.Process != nil {
									_ = c.Process.Signal(syscall.SIGTERM)
								}
							}
						}()
					}
					mu.Unlock()
				}
			}(i)
		}
		wg.Wait()
	}

	distinct := map[string]bool{}
	classes := map[string]int{}
	var samples []any
	timedOut := false
	infraMsg := ""
	failMsg, failCase := corpusFail, corpusCase
	for i := range sums {
		if errsS[i] != "" {
			infraMsg = errsS[i]
		}
		s := sums[i]
		if s == nil {
			continue
		}
		evals += s.Evaluations
		timedOut = timedOut || s.TimedOut
		for _, h := range s.NonTrivial {
			distinct[h] = true
		}
		for k, n := range s.Classes {
			classes[k] += n
		}
		if len(samples) < 5 {
			for _, x := range s.Samples {
				if len(samples) < 5 && len(x) < 1200 {
					samples = append(samples, x)
				}
			}
		}
		if s.Infra != "" {
			infraMsg = s.Infra + " case=" + trunc(string(s.FailCase), 300)
		}
		if s.FailMsg != "" && (failCase == nil || (corpusFail == "" && len(s.FailCase) < len(failCase))) {
			failMsg, failCase = s.FailMsg, s.FailCase
		}
	}

	// confirm a failure from its saved form, in a fresh process
	replay := ""
	violations := 0
	if failMsg != "" {
		c, err := p.Decode(failCase)
		must(err)
		confirmed := false
		for i := 0; i < max(3, p.Confirm) && !confirmed; i++ {
			ex := &executor{p: p, root: mkdir(root, fmt.Sprintf("confirm%d", i)), tier: tier}
			r := ex.run(c)
			for j := 0; j < p.Confirm/4 && r.Fail == ""; j++ {
				r = ex.run(c)
			}
			ex.stop()
			if r.Fail != "" {
				confirmed = true
				failMsg = r.Fail
			} else if r.Infra != "" {
				infraMsg = r.Infra
			}
		}
		if confirmed {
			violations = 1
			must(os.MkdirAll(filepath.Join(verifDir, "evidence", "replay"), 0o755))
			replay = filepath.Join(verifDir, "evidence", "replay", fmt.Sprintf("%s-%s.json", id, caseHash(failCase)))
			b, _ := json.MarshalIndent(map[string]any{"property": id, "message": failMsg, "case": json.RawMessage(failCase)}, "", " ")
			must(os.WriteFile(replay, b, 0o644))
		} else {
			infraMsg = "a failure did not show again on replay (no verdict): " + failMsg + " case=" + trunc(string(failCase), 500)
		}
	}

	if len(samples) == 0 && len(sums) > 0 {
		for _, s := range sums {
			if s != nil && len(s.Samples) > 0 {
				samples = append(samples, json.RawMessage(s.Samples[0]))
				break
			}
		}
	}
	if samples == nil {
		samples = []any{}
		if failCase != nil {
			samples = append(samples, json.RawMessage(failCase))
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"classes":             classes,
			"corpus_cases":        corpusRun,
			"known_findings":      len(known),
			"stopped_by_time":     timedOut,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	must(os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755))
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644))

	if violations > 0 {
		fmt.Printf("%s: %s\n", id, failMsg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if infraMsg != "" {
		fmt.Fprintf(os.Stderr, "ERROR property=%s: %s\n", id, infraMsg)
		return 2
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %.1fs\n", id, evals, len(distinct), time.Since(start).Seconds())
	return 0
}

func removeRoot(root string) {
	for i := 0; i < 10; i++ {
		if os.RemoveAll(root) == nil {
			time.Sleep(300 * time.Millisecond)
			if _, err := os.Stat(root); err != nil {
				return
			}
		}
		time.Sleep(300 * time.Millisecond)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func mkdir(parts ...string) string {
	d := filepath.Join(parts...)
	must(os.MkdirAll(d, 0o755))
	return d
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property string          `json:"property"`
		Case     json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Property)
		return 2
	}
	c, err := p.Decode(r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	root, _ := os.MkdirTemp(scratchBase(), "vh-replay-")
	defer os.RemoveAll(root)
	ex := &executor{p: p, root: root, tier: "quick"}
	defer ex.stop()
	res := ex.run(c)
	for i := 0; i < p.Confirm*p.Confirm/4 && res.Fail == "" && res.Infra == ""; i++ {
		res = ex.run(c)
	}
	switch {
	case res.Infra != "":
		fmt.Fprintln(os.Stderr, "ERROR:", res.Infra)
		return 2
	case res.Fail != "":
		fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", r.Property, res.Fail, r.Property, file)
		return 1
	}
	fmt.Printf("%s: held (nontrivial=%v classes=%v)\n", r.Property, res.NonTrivial, res.Classes)
	return 0
}

// scratchBase prefers a memory file system: the checks create and remove millions of small files.
func scratchBase() string {
	var st syscall.Statfs_t
	if syscall.Statfs("/dev/shm", &st) == nil && st.Bavail*uint64(st.Bsize) > 512<<20 {
		if f, err := os.CreateTemp("/dev/shm", "vh-probe-"); err == nil {
			f.Close()
			os.Remove(f.Name())
			return "/dev/shm"
		}
	}
	return ""
}
