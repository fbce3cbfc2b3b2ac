package fw

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Spec tells a driver what to do.
type Spec struct {
	Property  string
	Tier      string
	Seed      uint64
	Shard     int
	Shards    int
	Workers   map[string]string // flavour -> test binary
	Out       string            // result file; Out+".hashes" holds the case hashes
	Stop      string            // when this file exists, another shard found a violation
	Deadline  int64             // unix seconds; generation stops then
	Known     []string          // signatures listed as known findings
	Shrink    int               // seconds
	Replay    string            // an envelope file: run only that
	ReplayRep int
	Only      string // part name filter
}

// PartStat is what one shard did for one part.
type PartStat struct {
	Evaluations int            `json:"evaluations"`
	Flavours    map[string]int `json:"flavours"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Planned     int            `json:"planned"`
	MaxMS       int            `json:"max_ms"` // the slowest case
}

// Failure is a violating case.
type Failure struct {
	Env Envelope `json:"env"`
	Msg string   `json:"msg"`
	Sig string   `json:"sig,omitempty"`
}

// Out is a shard's report.
type Out struct {
	Parts    map[string]*PartStat `json:"parts"`
	Failures []Failure            `json:"failures"`
	Known    map[string]string    `json:"known"`
	Errors   []string             `json:"errors"`
	Restarts int                  `json:"restarts"`
}

// proc is a worker child.
type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	res    *bufio.Reader
	resF   *os.File
	stderr *tail
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	// keep the head and the tail: the reason of a crash comes first
	if len(t.buf) < 256<<10 {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

func (t *tail) reset() {
	t.mu.Lock()
	t.buf = t.buf[:0]
	t.mu.Unlock()
}

func startWorker(bin string) (*proc, error) {
	r, wf, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c := exec.Command(bin, "-test.run=^TestAXV$", "-test.timeout=0")
	c.Env = append(os.Environ(), "AXV_ROLE=worker", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all")
	c.ExtraFiles = []*os.File{wf}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	t := &tail{}
	c.Stderr = t
	c.Stdout = t
	if err := c.Start(); err != nil {
		return nil, err
	}
	wf.Close()
	return &proc{c, in, bufio.NewReaderSize(r, 1<<16), r, t}, nil
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.resF.Close()
}

type driver struct {
	spec    Spec
	out     Out
	procs   map[string]*proc
	hashes  map[uint64]struct{}
	nthash  map[uint64]struct{}
	stopped bool
	shrunk  bool // a hang was seen: do not shrink
}

// ask runs an envelope in a worker and returns its answer.
func (d *driver) ask(env Envelope) (Result, error) {
	bin := d.spec.Workers[env.Flavour]
	if bin == "" {
		return Result{}, fmt.Errorf("no worker for flavour %q", env.Flavour)
	}
	p := d.procs[env.Flavour]
	if p == nil {
		var err error
		if p, err = startWorker(bin); err != nil {
			return Result{}, err
		}
		d.procs[env.Flavour] = p
		d.out.Restarts++
	}
	b, err := json.Marshal(env)
	if err != nil {
		return Result{}, err
	}
	kill := time.AfterFunc(400*time.Second, func() { p.cmd.Process.Kill() })
	_, werr := p.in.Write(append(b, '\n'))
	line, rerr := p.res.ReadBytes('\n')
	timedOut := !kill.Stop()
	if werr == nil && rerr == nil {
		var r Result
		if err := json.Unmarshal(line, &r); err != nil {
			return Result{}, fmt.Errorf("worker answer: %v", err)
		}
		if r.Restart {
			p.cmd.Wait()
			p.resF.Close()
			delete(d.procs, env.Flavour)
		} else {
			p.stderr.reset()
		}
		return r, nil
	}
	// the worker died: a crash is an observation
	delete(d.procs, env.Flavour)
	p.cmd.Wait()
	p.resF.Close()
	txt := p.stderr.String()
	if timedOut {
		return Result{}, fmt.Errorf("worker did not answer: %s", trim(txt, 2000))
	}
	return crash(txt, p.cmd.ProcessState.String())
}

// crash judges the last words of a dead worker.
func crash(txt, state string) (Result, error) {
	if i := strings.Index(txt, "WARNING: DATA RACE"); i >= 0 {
		rep := txt[i:]
		if j := strings.Index(rep, "=================="); j > 0 {
			rep = rep[:j]
		}
		if strings.Contains(rep, "github.com/axgrid/axutils") {
			return Result{Violation: "data race in the code under test\n" + trim(rep, 2600)}, nil
		}
		// the checks are free of races as long as what they call orders what
		// its users do: a value handed over, a lock held
		return Result{Violation: "data race between users whom the code under test should have kept apart\n" + trim(rep, 2600)}, nil
	}
	for _, mark := range []string{"panic: ", "fatal error: "} {
		i := strings.Index(txt, mark)
		if i < 0 {
			continue
		}
		rep := txt[i:]
		// the first goroutine printed is the one that crashed
		j := strings.Index(rep, "\ngoroutine ")
		if j < 0 {
			continue
		}
		st := rep[j+1:]
		if k := strings.Index(st, "\n\n"); k > 0 {
			st = st[:k]
		}
		if strings.Contains(rep[:j], "out of memory") || strings.Contains(rep[:j], "cannot allocate") {
			return Result{}, fmt.Errorf("worker ran out of memory: %s", trim(rep, 1500))
		}
		if blame("panic(\n" + st) {
			return Result{Violation: "the code under test crashes the process: " + trim(rep, 2600)}, nil
		}
		if broken(rep[:j]) {
			return Result{Violation: "what the code under test did broke the check: " + trim(rep, 2600)}, nil
		}
		return Result{}, fmt.Errorf("worker crashed: %s", trim(rep, 4000))
	}
	return Result{}, fmt.Errorf("worker died (%s): %s", state, trim(txt, 3000))
}

// broken reports whether a crash in the harness is one that it can only run into
// when it is given something it must never be given: no entry where there must
// be one, a short list, a call at the same time as another.
func broken(crash string) bool {
	for _, s := range []string{"runtime error: ", "concurrent map ", "assignment to entry in nil map", "interface conversion", "close of closed channel", "send on closed channel", "negative WaitGroup counter", "unlock of unlocked"} {
		if strings.Contains(crash, s) {
			return true
		}
	}
	return false
}

// fakeTB lets rapid run outside go test's own reporting.
type fakeTB struct{ failed bool }

type tbStop struct{}

func (*fakeTB) Helper()                 {}
func (*fakeTB) Name() string            { return "axv" }
func (*fakeTB) Logf(string, ...any)     {}
func (*fakeTB) Log(...any)              {}
func (*fakeTB) Skipf(string, ...any)    { panic(tbStop{}) }
func (*fakeTB) Skip(...any)             { panic(tbStop{}) }
func (*fakeTB) SkipNow()                { panic(tbStop{}) }
func (f *fakeTB) Errorf(string, ...any) { f.failed = true }
func (f *fakeTB) Error(...any)          { f.failed = true }
func (f *fakeTB) Fatalf(string, ...any) { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fatal(...any)          { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) FailNow()              { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fail()                 { f.failed = true }
func (f *fakeTB) Failed() bool          { return f.failed }

func drive() {
	var d driver
	raw, err := os.ReadFile(os.Getenv("AXV_SPEC"))
	if err == nil {
		err = json.Unmarshal(raw, &d.spec)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
	d.out = Out{Parts: map[string]*PartStat{}, Known: map[string]string{}}
	d.procs = map[string]*proc{}
	d.hashes = map[uint64]struct{}{}
	d.nthash = map[uint64]struct{}{}
	for _, kv := range [][2]string{{"rapid.nofailfile", "true"}, {"rapid.shrinktime", fmt.Sprintf("%ds", d.spec.Shrink)}} {
		flag.Set(kv[0], kv[1])
	}
	if d.spec.Replay != "" {
		d.replay()
	} else {
		d.all()
	}
	for _, p := range d.procs {
		p.kill()
	}
	var hb bytes.Buffer
	for h := range d.nthash {
		binary.Write(&hb, binary.LittleEndian, h)
	}
	os.WriteFile(d.spec.Out+".hashes", hb.Bytes(), 0o644)
	b, _ := json.Marshal(d.out)
	if err := os.WriteFile(d.spec.Out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
	os.Exit(0)
}

func (d *driver) replay() {
	raw, err := os.ReadFile(d.spec.Replay)
	var f Failure
	if err == nil {
		err = json.Unmarshal(raw, &f)
	}
	if err != nil {
		d.out.Errors = append(d.out.Errors, err.Error())
		return
	}
	f.Env.Reps = d.spec.ReplayRep
	r, err := d.ask(f.Env)
	switch {
	case err != nil:
		d.out.Errors = append(d.out.Errors, err.Error())
	case r.Inconclusive != "":
		d.out.Errors = append(d.out.Errors, r.Inconclusive)
	case r.Violation != "":
		d.out.Failures = append(d.out.Failures, Failure{f.Env, r.Violation, r.Sig})
	}
}

func (d *driver) all() {
	p := props[d.spec.Property]
	if p == nil {
		d.out.Errors = append(d.out.Errors, "unknown property")
		return
	}
	for _, part := range p.Parts {
		if d.spec.Only != "" && part.Name != d.spec.Only {
			continue
		}
		runs := part.Quick
		if d.spec.Tier == "thorough" {
			runs = part.Thorough
		}
		for ri, run := range runs {
			if d.stopped || len(d.out.Failures) > 0 || len(d.out.Errors) > 0 {
				return
			}
			d.campaign(part, ri, run)
		}
	}
}

func (d *driver) campaign(part *Part, ri int, run Run) {
	// shard k takes every Shards-th case
	n := run.Cases / d.spec.Shards
	if d.spec.Shard < run.Cases%d.spec.Shards {
		n++
	}
	st := d.out.Parts[part.Name]
	if st == nil {
		st = &PartStat{Labels: map[string]int{}, Flavours: map[string]int{}}
		d.out.Parts[part.Name] = st
	}
	st.Planned += n
	if n == 0 {
		return
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d/%s/%d", d.spec.Seed, d.spec.Property, part.Name, ri, run.Flavour, d.spec.Shard)
	seed := h.Sum64()
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.checks", fmt.Sprint(n))

	var best *Failure
	failing := false
	hang := false
	calls := 0
	prop := func(t *rapid.T) {
		if d.stopped || len(d.out.Errors) > 0 || (failing && hang) {
			return
		}
		calls++
		if calls%16 == 0 || failing {
			if time.Now().Unix() > d.spec.Deadline {
				d.stopped = true
				return
			}
			if _, err := os.Stat(d.spec.Stop); err == nil && !failing {
				d.stopped = true
				return
			}
		}
		m := Meta{}
		switch run.Flavour {
		case "sched":
			m.Procs = rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "procs")
			m.Seed = uint64(rapid.Uint32().Draw(t, "schedseed"))
			m.Dens = uint32(rapid.SampledFrom([]int{0, 4, 12, 40, 90, 150}).Draw(t, "dens"))
			m.Stall = uint32(rapid.SampledFrom([]int{0, 20, 60, 200}).Draw(t, "stall"))
		case "race":
			m.Procs = rapid.SampledFrom([]int{2, 1, 4, 8}).Draw(t, "procs")
			m.Seed = uint64(rapid.Uint32().Draw(t, "schedseed"))
			m.Dens = uint32(rapid.SampledFrom([]int{0, 8, 30, 90}).Draw(t, "dens"))
			m.Stall = uint32(rapid.SampledFrom([]int{0, 0, 20, 100}).Draw(t, "stall"))
		default:
			m.Procs = 2
		}
		c := part.gen(t)
		raw, err := json.Marshal(c)
		if err != nil {
			d.out.Errors = append(d.out.Errors, "case does not encode: "+err.Error())
			return
		}
		env := Envelope{Property: d.spec.Property, Part: part.Name, Flavour: run.Flavour, Meta: m, Case: raw}
		if failing {
			env.Reps = part.ShrinkReps
			if env.Reps == 0 && run.Flavour != "plain" {
				env.Reps = 5
			}
		}
		t0 := time.Now()
		res, err := d.ask(env)
		if !failing {
			st.MaxMS = max(st.MaxMS, int(time.Since(t0).Milliseconds()))
		}
		if err != nil || res.Inconclusive != "" {
			msg := res.Inconclusive
			if err != nil {
				msg = err.Error()
			}
			if best == nil { // while shrinking, keep what we have
				eb, _ := json.Marshal(env)
				d.out.Errors = append(d.out.Errors, fmt.Sprintf("part %s: %s\ncase: %s", part.Name, msg, trim(string(eb), 3000)))
			}
			return
		}
		if !failing {
			st.Evaluations++
			st.Flavours[run.Flavour]++
			hv := hash64(append([]byte(part.Name+"\x00"), raw...))
			for _, l := range res.Labels {
				st.Labels[l]++
			}
			if res.NonTrivial {
				st.NonTrivial++
				if _, dup := d.nthash[hv]; !dup {
					d.nthash[hv] = struct{}{}
					if len(st.Samples) < 2 && (len(raw) < 500 || calls > 50) {
						st.Samples = append(st.Samples, trim(string(raw), 700))
					}
				}
			}
		}
		if res.Violation == "" {
			return
		}
		if res.Sig != "" {
			for _, k := range d.spec.Known {
				if k == res.Sig {
					if _, ok := d.out.Known[k]; !ok {
						d.out.Known[k] = trim(res.Violation, 300)
					}
					return
				}
			}
		}
		if !failing {
			failing = true
			os.WriteFile(d.spec.Stop, nil, 0o644)
		}
		for _, l := range res.Labels {
			if l == "hang" {
				hang = true
			}
		}
		f := &Failure{env, res.Violation, res.Sig}
		f.Env.Reps = 0
		if best == nil || len(f.Env.Case) < len(best.Env.Case) {
			best = f
		}
		t.Fatalf("violation")
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					d.out.Errors = append(d.out.Errors, fmt.Sprintf("part %s: driver panic: %v", part.Name, r))
				}
			}
		}()
		rapid.Check(&fakeTB{}, prop)
	}()
	if best != nil {
		d.out.Failures = append(d.out.Failures, *best)
		return
	}
	if !d.stopped && len(d.out.Errors) == 0 && st.Evaluations < st.Planned*9/10 {
		d.out.Errors = append(d.out.Errors, fmt.Sprintf("part %s: only %d of %d cases could be generated", part.Name, st.Evaluations, st.Planned))
	}
}
