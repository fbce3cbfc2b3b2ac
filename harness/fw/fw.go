// Package fw is the generated-case framework: a property is a list of parts,
// each a rapid generator that draws a case (plain data) and a runner that
// executes the case against the real code and judges it with an oracle.
// Drawing happens in a driver process; running happens in a worker process, so
// that a case that kills or deadlocks its process is an observation too.
package fw

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"axverif/yield"

	"pgregory.net/rapid"
)

// Meta is drawn for every case and describes how it is scheduled.
type Meta struct {
	Procs int    `json:"procs,omitempty"` // GOMAXPROCS while the case runs
	Seed  uint64 `json:"seed,omitempty"`  // schedule seed for the instrumented builds
	Dens  uint32 `json:"dens,omitempty"`  // yield density, of 256
	Stall uint32 `json:"stall,omitempty"` // density of long yields, of 4096
}

// Envelope is what the driver sends to a worker, and what a replay file holds.
type Envelope struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Flavour  string          `json:"flavour"`
	Meta     Meta            `json:"meta"`
	Reps     int             `json:"reps,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// Result is a worker's answer.
type Result struct {
	Violation    string   `json:"violation,omitempty"`
	Sig          string   `json:"sig,omitempty"` // set for a failure that may be a listed known finding
	Inconclusive string   `json:"inconclusive,omitempty"`
	NonTrivial   bool     `json:"nontrivial,omitempty"`
	Labels       []string `json:"labels,omitempty"`
	Restart      bool     `json:"restart,omitempty"` // the worker exits after this answer
}

// Run is one generation campaign of a part.
type Run struct {
	Flavour string // plain | sched | race
	Cases   int    // over all shards
}

// Part is one family of generated cases of a property.
type Part struct {
	Name       string
	Rule       string // what makes a case non-trivial
	Quick      []Run
	Thorough   []Run
	ShrinkReps int // repetitions of a candidate while shrinking (schedule-dependent parts)
	gen        func(*rapid.T) any
	run        func(*Env, json.RawMessage)
}

// Prop is one property.
type Prop struct {
	ID    string
	Parts []*Part
}

var props = map[string]*Prop{}

var scale = 1

// Scale multiplies the numbers of cases of all parts added later; an area
// whose cases are cheap calls it in a variable declaration.
func Scale(n int) bool { scale = n; return true }

// Add registers a part of a property.
func Add[C any](id, name, rule string, gen func(*rapid.T) C, run func(*Env, C), quick []Run, opts ...func(*Part)) {
	p := props[id]
	if p == nil {
		p = &Prop{ID: id}
		props[id] = p
	}
	part := &Part{
		Name: name, Rule: rule, Quick: quick,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(e *Env, raw json.RawMessage) {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				panic(harnessError{fmt.Sprintf("case does not decode: %v", err)})
			}
			run(e, c)
		},
	}
	part.Quick = nil
	for _, r := range quick {
		r.Cases *= scale
		part.Quick = append(part.Quick, r)
		part.Thorough = append(part.Thorough, Run{r.Flavour, r.Cases * 25})
	}
	for _, o := range opts {
		o(part)
	}
	p.Parts = append(p.Parts, part)
}

// Reps sets ShrinkReps.
func Reps(n int) func(*Part) { return func(p *Part) { p.ShrinkReps = n } }

// RealTime is for parts whose cases take real time: the scale of the area does
// not apply to them.
func RealTime() func(*Part) {
	f := scale
	return func(p *Part) {
		p.Thorough = nil
		for i := range p.Quick {
			p.Quick[i].Cases /= f
			p.Thorough = append(p.Thorough, Run{p.Quick[i].Flavour, p.Quick[i].Cases * 25})
		}
	}
}

// Naps makes the instrumented builds sleep for d at some statements, n in
// 65536, for the rest of the case. Only for cases in real time.
func Naps(n int, d time.Duration) { yield.Nap(uint32(n), d) }

// ThoroughX replaces the default thorough multiplier (25) of a part.
func ThoroughX(n int) func(*Part) {
	return func(p *Part) {
		p.Thorough = nil
		for _, r := range p.Quick {
			p.Thorough = append(p.Thorough, Run{r.Flavour, r.Cases * n})
		}
	}
}

func Plain(n int) Run { return Run{"plain", n} }
func Sched(n int) Run { return Run{"sched", n} }
func Race(n int) Run  { return Run{"race", n} }

// IDs lists the registered properties.
func IDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Get returns a property or nil.
func Get(id string) *Prop { return props[id] }

func (p *Prop) part(name string) *Part {
	for _, x := range p.Parts {
		if x.Name == name {
			return x
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// Env: what a running case talks to.

type harnessError struct{ msg string }
type stopCase struct{}

// Env collects the verdict of one case.
type Env struct {
	T       *testing.T
	Flavour string
	Meta    Meta
	mu      sync.Mutex
	res     Result
	seen    map[string]bool
	// LeakIsViolation is set by parts whose property claims that background
	// goroutines end.
	LeakIsViolation bool
}

// Fail records a violation and ends the calling goroutine's part of the case.
// Call it from the case's main goroutine (or inside Bubble).
func (e *Env) Fail(format string, a ...any) {
	e.Report(format, a...)
	panic(stopCase{})
}

// Report records a violation and goes on; any goroutine may call it.
func (e *Env) Report(format string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.res.Violation == "" {
		s := fmt.Sprintf(format, a...)
		if len(s) > 3000 {
			s = s[:3000] + " ..."
		}
		e.res.Violation = s
	}
}

// FailSig is Fail for a failure that a known-findings entry may list.
func (e *Env) FailSig(sig, format string, a ...any) {
	e.mu.Lock()
	if e.res.Violation == "" {
		e.res.Sig = sig
	}
	e.mu.Unlock()
	e.Fail(format, a...)
}

// Failed reports whether a violation is recorded.
func (e *Env) Failed() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.res.Violation != ""
}

// NonTrivial marks the case as non-trivial by the part's rule.
func (e *Env) NonTrivial(b bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if b {
		e.res.NonTrivial = true
	}
}

// Label counts the case under a class name.
func (e *Env) Label(s string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.seen == nil {
		e.seen = map[string]bool{}
	}
	if !e.seen[s] {
		e.seen[s] = true
		e.res.Labels = append(e.res.Labels, s)
	}
}

// LabelIf labels the case when b holds.
func (e *Env) LabelIf(b bool, s string) {
	if b {
		e.Label(s)
	}
}

// guard runs fn, turning a panic into a violation when the code under test
// raised it, and into a harness error when the harness did.
func (e *Env) guard(fn func()) (harness string) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil, stopCase:
		case harnessError:
			harness = x.msg
		default:
			buf := make([]byte, 64<<10)
			stack := string(buf[:runtime.Stack(buf, false)])
			if blame(stack) {
				e.Report("panic in the code under test: %v\n%s", r, trim(stack, 1800))
			} else if broken(fmt.Sprint(r)) {
				e.Report("what the code under test did broke the check: %v\n%s", r, trim(stack, 1800))
			} else {
				harness = fmt.Sprintf("harness panic: %v\n%s", r, trim(stack, 4000))
			}
		}
	}()
	fn()
	return
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

// Call runs fn, a direct call of the code under test, and reports a panic out
// of it (however it was raised: a fault, an explicit panic, the runtime) as msg.
func Call(fn func()) (panicked any) {
	defer func() {
		r := recover()
		if _, ok := r.(stopCase); ok {
			panic(r)
		}
		if _, ok := r.(harnessError); ok {
			panic(r)
		}
		panicked = r
	}()
	fn()
	return nil
}

// blame reports whether the innermost frame below the last panic that belongs
// neither to the runtime nor to the standard library is the code under test.
func blame(stack string) bool {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.throw(") || strings.HasPrefix(l, "runtime.fatal(") || strings.HasPrefix(l, "runtime.sigpanic") {
			start = i + 1
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		l = strings.TrimPrefix(l, "created by ")
		if strings.HasPrefix(l, "github.com/axgrid/axutils") {
			return true
		}
		if strings.HasPrefix(l, "axverif") {
			return false
		}
	}
	return false
}

// Main runs fn as the body of a case, outside a bubble.
func (e *Env) Main(fn func()) {
	if h := e.guard(fn); h != "" {
		panic(harnessError{h})
	}
}

// Bubble runs fn on a virtual clock. fn must release everything it started
// (cancel contexts, drain channels) before it returns, normally or by Fail.
// Background goroutines that stay after that are a leak: a violation when
// LeakIsViolation is set, and otherwise only a reason to restart the worker.
func (e *Env) Bubble(fn func()) {
	var harness string
	mainDone := false
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			s := fmt.Sprint(r)
			if !strings.Contains(s, "deadlock: ") {
				panic(r)
			}
			if mainDone {
				if e.LeakIsViolation {
					e.Report("goroutine leak: background goroutines stay blocked for ever after the case released everything\n%s", bubbleStacks(3000))
				}
				e.res.Restart = true
				return
			}
			e.Report("deadlock: every goroutine of the case is blocked for ever and no timer is pending\n%s", bubbleStacks(3000))
			e.res.Restart = true
		}()
		synctest.Test(e.T, func(*testing.T) {
			harness = e.guard(fn)
			synctest.Wait()
			for i, d := range []time.Duration{0, 10 * time.Minute, 2 * time.Hour} {
				if d > 0 {
					time.Sleep(d)
					synctest.Wait()
				}
				stray := strayBubbleGoroutines()
				if stray == "" {
					break
				}
				if i == 2 {
					if e.LeakIsViolation {
						e.Report("goroutine leak: background goroutines are still there two virtual hours after the case released everything\n%s", trim(stray, 2500))
					}
					if harness != "" {
						e.res.Inconclusive = harness
					}
					e.res.Restart = true
					bail(e)
				}
			}
			mainDone = true
		})
	}()
	if harness != "" {
		panic(harnessError{harness})
	}
}

// bail answers for a case from inside a bubble that cannot be left, and ends
// the process. Set by the worker loop.
var bail = func(e *Env) { panic("no worker loop") }

// Settle waits until every other goroutine of the bubble is blocked.
func Settle() { synctest.Wait() }

// Sleep advances the virtual clock by d and settles.
func Sleep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
	synctest.Wait()
}

// Linger lets a callback take its time, in virtual time. The code under test has
// promised that nothing waits for it, so that whoever waits for a lock
// meanwhile, with nobody else about to run, waits in vain.
//
//go:noinline
func Linger(d time.Duration) { time.Sleep(d) }

// NoStrays fails the case when a goroutine other than the caller's is left in
// the bubble.
func (e *Env) NoStrays(when string) {
	synctest.Wait()
	if s := strayBubbleGoroutines(); s != "" {
		e.Fail("goroutine leak: still there %s\n%s", when, trim(s, 2500))
	}
}

// strayBubbleGoroutines returns the stacks of the goroutines of the current
// bubble other than the caller and the bubble's own root.
func strayBubbleGoroutines() string {
	buf := make([]byte, 256<<10)
	n := runtime.Stack(buf, true)
	var out []string
	for i, g := range strings.Split(string(buf[:n]), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if i == 0 || !strings.Contains(head, "synctest bubble") || strings.Contains(g, "synctest.testingSynctestTest(") || strings.Contains(head, "[synctest.Run") {
			continue
		}
		out = append(out, g)
	}
	return strings.Join(out, "\n\n")
}

func bubbleStacks(n int) string {
	buf := make([]byte, 256<<10)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "synctest bubble") && strings.Contains(g, "github.com/axgrid/axutils") {
			out = append(out, g)
		}
	}
	return trim(strings.Join(out, "\n\n"), n)
}

// ---------------------------------------------------------------------------

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func applyMeta(m Meta) {
	if m.Procs > 0 && runtime.GOMAXPROCS(0) != m.Procs {
		runtime.GOMAXPROCS(m.Procs)
	}
	yield.Set(m.Seed, m.Dens, m.Stall)
}

// Apart runs f, in a goroutine of its own if apart, which f may end.
func Apart(apart bool, f func()) {
	if !apart {
		f()
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	<-done
}
