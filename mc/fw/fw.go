// Package fw runs a property's jobs in worker processes and reports.
package fw

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Job is one independently explorable piece of a property's space.
type Job struct {
	Name string
	Run  func(c *Ctx)
}

// Prop is a checkable property.
type Prop struct {
	ID    string
	Level string
	Rule  string // for exploration
	Notes []string
	Jobs  func(tier string) []Job
	// FreshProcess runs every job in its own process.
	FreshProcess bool
	// Final may derive coverage entries after merging.
	Final func(r *Result, cov map[string]interface{})
}

// Violation describes one failing execution.
type Violation struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Job      string   `json:"job"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
}

// Result is what a job returns; results merge by addition.
type Result struct {
	States, Transitions, Replayed int64
	Evaluations, Nontrivial       int64
	Extra                         map[string]int64
	Max                           map[string]int64
	Samples                       []string
	Known                         map[string]string // signature -> example
	Violation                     *Violation
	HarnessError                  string
	Incomplete                    bool
}

// Ctx is passed to a running job.
type Ctx struct {
	Result
	Tier     string
	Seed     int
	deadline time.Time
	// Cur describes the execution in progress; used when it panics.
	Cur       func() []string
	tracePath string
	steps     int64
	known     map[string]bool
}

// Thorough reports the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Sample records an example execution (a few per job).
func (c *Ctx) Sample(s string) {
	if len(c.Samples) < 2 {
		c.Samples = append(c.Samples, s)
	}
}

// WantSample avoids formatting costs.
func (c *Ctx) WantSample() bool { return len(c.Samples) < 2 }

// Count adds to a named counter.
func (c *Ctx) Count(k string, n int64) {
	if c.Extra == nil {
		c.Extra = map[string]int64{}
	}
	c.Extra[k] += n
}

// SetMax records a maximum.
func (c *Ctx) SetMax(k string, n int64) {
	if c.Max == nil {
		c.Max = map[string]int64{}
	}
	if n > c.Max[k] {
		c.Max[k] = n
	}
}

type stop struct{}

// Fail reports a violation and ends the job.
func (c *Ctx) Fail(format string, args ...interface{}) {
	v := &Violation{Message: fmt.Sprintf(format, args...)}
	if c.Cur != nil {
		v.Trace = c.Cur()
	}
	c.Violation = v
	panic(stop{})
}

// FailKnown reports a violation unless its signature is a listed known
// finding, in which case it is noted and the job goes on.
func (c *Ctx) FailKnown(sig, format string, args ...interface{}) {
	if c.known[sig] {
		if c.Known == nil {
			c.Known = map[string]string{}
		}
		if _, ok := c.Known[sig]; !ok {
			c.Known[sig] = fmt.Sprintf(format, args...)
		}
		return
	}
	c.Fail("["+sig+"] "+format, args...)
}

// IsKnown says whether a signature is listed.
func (c *Ctx) IsKnown(sig string) bool { return c.known[sig] }

// Broken reports that the harness itself could not work.
func (c *Ctx) Broken(format string, args ...interface{}) {
	c.HarnessError = fmt.Sprintf(format, args...)
	panic(stop{})
}

// Step is called before every execution; it stops the job when the internal
// deadline has passed and, in trace mode, records what is about to run.
func (c *Ctx) Step() bool {
	c.steps++
	if c.tracePath != "" && c.Cur != nil {
		_ = os.WriteFile(c.tracePath, []byte(strings.Join(c.Cur(), "\n")), 0o644)
	}
	if c.steps&1023 == 0 && time.Now().After(c.deadline) {
		c.Incomplete = true
		return false
	}
	return !c.Incomplete
}

// PanicText formats a recovered panic with the library frames of its stack.
func PanicText(r interface{}, stack []byte) string {
	var fr []string
	for _, l := range strings.Split(string(stack), "\n") {
		if strings.HasPrefix(l, "github.com/danhhz/zeropb") {
			if i := strings.Index(l, "("); i > 0 {
				l = l[:i]
			}
			fr = append(fr, l)
		}
	}
	if len(fr) > 6 {
		fr = fr[:6]
	}
	return fmt.Sprintf("panic: %v in %s", r, strings.Join(fr, " < "))
}

// LibPanic says whether the stack passes through the library.
func LibPanic(stack []byte) bool {
	for _, l := range strings.Split(string(stack), "\n") {
		if strings.HasPrefix(l, "github.com/danhhz/zeropb") && !strings.HasPrefix(l, "github.com/danhhz/zeropb/vsched_verif") {
			return true
		}
	}
	return false
}

func runJob(j Job, c *Ctx) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(stop); ok {
			return
		}
		st := debug.Stack()
		if LibPanic(st) {
			v := &Violation{Message: PanicText(r, st)}
			if c.Cur != nil {
				v.Trace = c.Cur()
			}
			c.Violation = v
			return
		}
		c.HarnessError = fmt.Sprintf("panic: %v\n%s", r, st)
	}()
	j.Run(c)
}

func knownSigs(prop string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.jsonl"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		var e struct{ Status, Property, Signature string }
		if json.Unmarshal([]byte(l), &e) == nil && e.Status == "known" && e.Property == prop {
			out[e.Signature] = true
		}
	}
	return out
}

// VerifDir is the framework's root.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func evidenceDir() string {
	if d := os.Getenv("VERIF_EVIDENCE"); d != "" {
		return d
	}
	return filepath.Join(VerifDir(), "evidence")
}

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

func worker(p *Prop, tier string, deadline time.Time, trace string) {
	jobs := p.Jobs(tier)
	known := knownSigs(p.ID)
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		w, _ := os.Create(f + strconv.Itoa(os.Getpid()))
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	in := bufio.NewScanner(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil || i < 0 || i >= len(jobs) {
			fmt.Fprintln(os.Stderr, "bad job", in.Text())
			os.Exit(2)
		}
		c := &Ctx{Tier: tier, Seed: envInt("VERIF_SEED", 1), deadline: deadline, tracePath: trace, known: known}
		runJob(jobs[i], c)
		if c.Violation != nil {
			c.Violation.Property, c.Violation.Tier, c.Violation.Job = p.ID, tier, jobs[i].Name
		}
		b, err := json.Marshal(c.Result)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		// keep the head: fatal errors print the cause first
		t.b = t.b[:1<<16]
	}
	return len(p), nil
}

func startWorker(p *Prop, tier string, deadline time.Time, trace string) (*proc, error) {
	cmd := exec.Command(os.Args[0], "-prop", p.ID, "-tier", tier, "-worker",
		"-deadline", strconv.FormatInt(deadline.UnixNano(), 10), "-trace", trace)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	t := &tail{}
	cmd.Stderr = t
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(o, 1<<20), stderr: t}, nil
}

func (w *proc) close() {
	w.in.Close()
	w.cmd.Wait()
}

func (w *proc) kill() {
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

type outcome struct {
	res  *Result
	err  string // worker died or hung; stderr
	hung bool
}

func (w *proc) do(i int, limit time.Duration) outcome {
	if _, err := fmt.Fprintln(w.in, i); err != nil {
		return outcome{err: "write: " + err.Error()}
	}
	type rd struct {
		b   []byte
		err error
	}
	ch := make(chan rd, 1)
	go func() {
		b, err := w.out.ReadBytes('\n')
		ch <- rd{b, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			w.cmd.Wait()
			w.stderr.mu.Lock()
			defer w.stderr.mu.Unlock()
			return outcome{err: fmt.Sprintf("worker died (%v): %s", w.cmd.ProcessState, w.stderr.b)}
		}
		res := &Result{}
		if err := json.Unmarshal(r.b, res); err != nil {
			return outcome{err: "bad result: " + err.Error() + string(r.b)}
		}
		return outcome{res: res}
	case <-time.After(limit):
		w.kill()
		return outcome{err: "no result within " + limit.String(), hung: true}
	}
}

func merge(dst, src *Result) {
	dst.States += src.States
	dst.Transitions += src.Transitions
	dst.Replayed += src.Replayed
	dst.Evaluations += src.Evaluations
	dst.Nontrivial += src.Nontrivial
	for k, n := range src.Extra {
		if dst.Extra == nil {
			dst.Extra = map[string]int64{}
		}
		dst.Extra[k] += n
	}
	for k, n := range src.Max {
		if dst.Max == nil {
			dst.Max = map[string]int64{}
		}
		if n > dst.Max[k] {
			dst.Max[k] = n
		}
	}
	for k, s := range src.Known {
		if dst.Known == nil {
			dst.Known = map[string]string{}
		}
		if _, ok := dst.Known[k]; !ok {
			dst.Known[k] = s
		}
	}
	dst.Incomplete = dst.Incomplete || src.Incomplete
}

// Parent runs the whole property and returns the exit code.
func Parent(p *Prop, tier string, budget time.Duration, only string) int {
	start := time.Now()
	deadline := start.Add(budget)
	jobs := p.Jobs(tier)
	var idx []int
	for i, j := range jobs {
		if only == "" || j.Name == only {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		fmt.Fprintln(os.Stderr, "no jobs")
		return 2
	}
	nw := runtime.NumCPU()
	if n := envInt("VERIF_WORKERS", 0); n > 0 {
		nw = n
	}
	if nw > len(idx) {
		nw = len(idx)
	}
	var mu sync.Mutex
	total := &Result{}
	samples := map[int][]string{}
	var bad []outcomeAt
	next := 0
	done := 0
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if next >= len(idx) || len(bad) > 0 {
			return -1
		}
		if time.Now().After(deadline) {
			total.Incomplete = true
			return -1
		}
		next++
		return idx[next-1]
	}
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *proc
			defer func() {
				if w != nil {
					w.close()
				}
			}()
			for {
				i := take()
				if i < 0 {
					return
				}
				if w == nil {
					var err error
					if w, err = startWorker(p, tier, deadline, ""); err != nil {
						mu.Lock()
						bad = append(bad, outcomeAt{i, outcome{err: "start: " + err.Error()}})
						mu.Unlock()
						return
					}
				}
				// A job stops itself at the deadline; beyond that it is stuck.
				o := w.do(i, time.Until(deadline)+60*time.Second)
				if o.res == nil || o.res.Violation != nil || o.res.HarnessError != "" {
					mu.Lock()
					bad = append(bad, outcomeAt{i, o})
					mu.Unlock()
					if o.res == nil {
						w = nil
					}
					return
				}
				mu.Lock()
				merge(total, o.res)
				samples[i] = o.res.Samples
				done++
				mu.Unlock()
				if p.FreshProcess {
					w.close()
					w = nil
				}
			}
		}()
	}
	wg.Wait()

	code := 0
	violations := 0
	sort.Slice(bad, func(a, b int) bool { return bad[a].job < bad[b].job })
	for _, b := range bad {
		name := jobs[b.job].Name
		switch {
		case b.o.res != nil && b.o.res.HarnessError != "":
			fmt.Fprintf(os.Stderr, "harness error in job %s: %s\n", name, b.o.res.HarnessError)
			code = 2
			continue
		case b.o.res != nil:
			v := b.o.res.Violation
			if !confirm(p, tier, b.job) {
				fmt.Fprintf(os.Stderr, "job %s: violation did not reproduce: %s\n", name, v.Message)
				if code == 0 {
					code = 2
				}
				continue
			}
			report(v)
			violations++
		default:
			// The worker crashed or hung: find the execution.
			v := pinpoint(p, tier, b.job, name, b.o)
			if v == nil {
				fmt.Fprintf(os.Stderr, "job %s: %s\n", name, b.o.err)
				if code == 0 {
					code = 2
				}
				continue
			}
			report(v)
			violations++
		}
		if violations > 0 {
			code = 1
			break
		}
	}
	sigs := make([]string, 0, len(total.Known))
	for s := range total.Known {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	for _, s := range sigs {
		fmt.Printf("KNOWN-FINDING: property=%s %s (e.g. %s)\n", p.ID, s, total.Known[s])
	}
	cov := map[string]interface{}{}
	exhaustive := !total.Incomplete && len(bad) == 0 && done == len(idx) && only == ""
	cov["exhaustive"] = exhaustive
	cov["jobs"] = done
	var ss []string
	keys := make([]int, 0, len(samples))
	for i := range samples {
		keys = append(keys, i)
	}
	sort.Ints(keys)
	stride := len(keys)/6 + 1
	for n, i := range keys {
		if n%stride == 0 && len(samples[i]) > 0 {
			ss = append(ss, samples[i][len(samples[i])-1])
		}
	}
	if len(ss) == 0 {
		ss = []string{"(none)"}
	}
	cov["samples"] = ss
	switch p.Level {
	case "model_checking":
		cov["states"] = total.States
		cov["transitions"] = total.Transitions
		cov["traces_validated_against_impl"] = total.Replayed
		if total.Evaluations > 0 {
			cov["evaluations"] = total.Evaluations
		}
	default:
		cov["evaluations"] = total.Evaluations
		cov["distinct_nontrivial"] = total.Nontrivial
		cov["rule"] = p.Rule
		if total.States > 0 {
			cov["states"] = total.States
			cov["transitions"] = total.Transitions
		}
	}
	for k, n := range total.Extra {
		cov[k] = n
	}
	for k, n := range total.Max {
		cov["max_"+k] = n
	}
	cov["known_findings_seen"] = len(total.Known)
	cov["deadline_reached"] = total.Incomplete
	if p.Final != nil {
		p.Final(total, cov)
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": p.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": p.Notes,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	dir := evidenceDir()
	os.MkdirAll(dir, 0o755)
	if only == "" {
		if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(js, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: states=%d transitions=%d replayed=%d evaluations=%d nontrivial=%d extra=%v max=%v jobs=%d/%d exhaustive=%v %.1fs\n",
		p.ID, tier, total.States, total.Transitions, total.Replayed, total.Evaluations, total.Nontrivial, total.Extra, total.Max, done, len(idx), exhaustive, time.Since(start).Seconds())
	return code
}

type outcomeAt struct {
	job int
	o   outcome
}

// confirm re-runs the failing job in fresh processes.
func confirm(p *Prop, tier string, job int) bool {
	const n = 5
	var wg sync.WaitGroup
	var mu sync.Mutex
	hits := 0
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := startWorker(p, tier, time.Now().Add(300*time.Second), "")
			if err != nil {
				return
			}
			o := w.do(job, 360*time.Second)
			if o.res == nil {
				return
			}
			w.close()
			if o.res.Violation != nil {
				mu.Lock()
				hits++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	fmt.Printf("violation reproduced in %d of %d re-runs\n", hits, n)
	return hits > 0
}

func pinpoint(p *Prop, tier string, job int, name string, first outcome) *Violation {
	tr, err := os.CreateTemp("", "verif-trace")
	if err != nil {
		return nil
	}
	tr.Close()
	defer os.Remove(tr.Name())
	w, err := startWorker(p, tier, time.Now().Add(300*time.Second), tr.Name())
	if err != nil {
		return nil
	}
	ch := make(chan outcome, 1)
	go func() { ch <- w.do(job, 600*time.Second) }()
	last, lastChange := "", time.Now()
	for {
		select {
		case o := <-ch:
			if o.res != nil {
				w.close()
				return o.res.Violation // maybe nil
			}
			b, _ := os.ReadFile(tr.Name())
			return &Violation{Property: p.ID, Tier: tier, Job: name, Message: "process crash: " + clip(o.err, 3000), Trace: strings.Split(string(b), "\n")}
		case <-time.After(time.Second):
			b, _ := os.ReadFile(tr.Name())
			if string(b) != last {
				last, lastChange = string(b), time.Now()
			} else if first.hung && time.Since(lastChange) > 60*time.Second {
				w.cmd.Process.Kill()
				return &Violation{Property: p.ID, Tier: tier, Job: name, Message: "operation does not terminate", Trace: strings.Split(last, "\n")}
			}
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func report(v *Violation) {
	dir := filepath.Join(evidenceDir(), "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, v.Property+".json")
	js, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(js, '\n'), 0o644)
	fmt.Printf("job %s: %s\n", v.Job, clip(v.Message, 4000))
	for _, l := range v.Trace {
		fmt.Println("   ", clip(l, 300))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
}

// Main dispatches on the command line.
func Main(props []*Prop, args []string) int {
	m := map[string]string{}
	isWorker := false
	for i := 0; i < len(args); i++ {
		k := strings.TrimLeft(args[i], "-")
		if k == "worker" {
			isWorker = true
			continue
		}
		if i+1 < len(args) {
			m[k] = args[i+1]
			i++
		}
	}
	tier := m["tier"]
	if tier == "" {
		tier = "quick"
	}
	only := m["job"]
	if r := m["replay"]; r != "" {
		b, err := os.ReadFile(r)
		var v Violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		m["prop"], tier, only = v.Property, v.Tier, v.Job
	}
	for _, p := range props {
		if p.ID != m["prop"] {
			continue
		}
		if isWorker {
			ns, _ := strconv.ParseInt(m["deadline"], 10, 64)
			worker(p, tier, time.Unix(0, ns), m["trace"])
			return 0
		}
		budget := 500 * time.Second
		if tier == "thorough" {
			budget = 3000 * time.Second
		}
		if n := envInt("VERIF_BUDGET_S", 0); n > 0 {
			budget = time.Duration(n) * time.Second
		}
		return Parent(p, tier, budget, only)
	}
	fmt.Fprintln(os.Stderr, "unknown property", m["prop"])
	return 2
}
