package fw

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

// Main is the body of the only test of every props package. The role comes
// from the environment: plan (list what a property needs), driver, worker.
func Main(t *testing.T) {
	switch os.Getenv("AXV_ROLE") {
	case "plan":
		plan()
	case "driver":
		drive()
	case "worker":
		work(t)
	default:
		t.Skip("run through check.sh")
	}
}

type plannedPart struct {
	Name, Rule string
	Runs       []Run
}

func plan() {
	p := props[os.Getenv("AXV_ID")]
	if p == nil {
		fmt.Println("AXV-PLAN null")
		return
	}
	var out []plannedPart
	for _, x := range p.Parts {
		r := x.Quick
		if os.Getenv("VERIF_TIER") == "thorough" {
			r = x.Thorough
		}
		out = append(out, plannedPart{x.Name, x.Rule, r})
	}
	b, _ := json.Marshal(out)
	fmt.Println("AXV-PLAN " + string(b))
}

const (
	hangAfter = 8 * time.Second  // every goroutine of the case blocked this long: deadlock
	spinAfter = 60 * time.Second // code under test still running after this long: never finishes
	giveUp    = 170 * time.Second
	heapLimit = 5 << 30
)

type worker struct {
	t       *testing.T
	out     *os.File
	started atomic.Int64 // unix nano of the running case, 0 when idle
	seq     atomic.Int64
	done    atomic.Bool // an answer for the running case was written
}

func (w *worker) answer(r Result) {
	if !w.done.CompareAndSwap(false, true) {
		select {} // the watchdog answered first and is exiting
	}
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	w.out.Write(append(b, '\n'))
	if r.Restart {
		os.Exit(0)
	}
}

func work(t *testing.T) {
	w := &worker{t: t, out: os.NewFile(3, "results")}
	bail = func(e *Env) {
		e.mu.Lock()
		r := e.res
		e.mu.Unlock()
		r.Restart = true
		w.answer(r)
	}
	go w.watch()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var env Envelope
		if err := json.Unmarshal(line, &env); err != nil {
			fmt.Fprintln(os.Stderr, "bad envelope:", err)
			os.Exit(3)
		}
		w.done.Store(false)
		w.seq.Add(1)
		w.started.Store(time.Now().UnixNano())
		r := w.exec(env)
		w.started.Store(0)
		w.answer(r)
	}
}

// exec runs one case, Reps times when asked to, until it fails.
func (w *worker) exec(env Envelope) Result {
	p := props[env.Property]
	if p == nil || p.part(env.Part) == nil {
		return Result{Inconclusive: "unknown property or part " + env.Property + "/" + env.Part}
	}
	part := p.part(env.Part)
	reps := max(env.Reps, 1)
	var last Result
	for i := 0; i < reps; i++ {
		m := env.Meta
		m.Seed += uint64(i) * 7919
		applyMeta(m)
		if i > 0 {
			w.started.Store(time.Now().UnixNano())
		}
		e := &Env{T: w.t, Meta: m, Flavour: env.Flavour}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if h, ok := r.(harnessError); ok {
						e.res.Inconclusive = h.msg
						return
					}
					panic(r)
				}
			}()
			if h := e.guard(func() { part.run(e, env.Case) }); h != "" {
				panic(harnessError{h})
			}
		}()
		e.mu.Lock()
		last = e.res
		e.mu.Unlock()
		if last.Violation != "" || last.Inconclusive != "" || last.Restart {
			break
		}
	}
	return last
}

type gor struct {
	id, state, stack string
}

func goroutines() []gor {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []gor
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // the caller
		}
		head, _, _ := strings.Cut(g, "\n")
		a, b := strings.Index(head, "["), strings.LastIndex(head, "]")
		if a < 0 || b < a {
			continue
		}
		st := head[a+1 : b]
		st, _, _ = strings.Cut(st, ",")
		st = strings.TrimSuffix(st, " (durable)")
		out = append(out, gor{strings.TrimSpace(head[:a]), st, g})
	}
	return out
}

func blockedState(s string) bool {
	switch s {
	case "running", "runnable", "sleep", "syscall", "waiting", "copystack", "preempted":
		return false
	}
	return true
}

func inTarget(g gor) bool { return strings.Contains(g.stack, "github.com/axgrid/axutils") }

// hung reports whether nothing of the case can move: every goroutine is blocked
// on something other than a sleep. Inside a bubble sleepers of the harness do
// not count: the virtual clock stands still because some goroutine is blocked
// on a lock, and the harness holds none of the library's locks.
func hung(gs []gor) (bool, string) {
	bubble := false
	for _, g := range gs {
		if strings.Contains(g.stack, "synctest bubble") {
			bubble = true
		}
	}
	var key, stacks []string
	any := false
	for _, g := range gs {
		head, _, _ := strings.Cut(g.stack, "\n")
		if bubble && !strings.Contains(head, "synctest bubble") {
			continue
		}
		if g.state == "GC worker (idle)" || g.state == "finalizer wait" || g.state == "cleanup wait" || strings.HasPrefix(g.state, "GC ") || g.state == "force gc (idle)" {
			continue
		}
		ok := blockedState(g.state) || (bubble && g.state == "sleep" && (!inTarget(g) || strings.Contains(g.stack, "axverif/fw.Linger(")))
		if !ok {
			return false, ""
		}
		if inTarget(g) {
			any = true
			stacks = append(stacks, g.stack)
		}
		key = append(key, g.id+g.state)
	}
	if !any {
		return false, ""
	}
	return true, strings.Join(key, ";") + "\x00" + strings.Join(stacks, "\n\n")
}

func (w *worker) watch() {
	var prev string
	count := 0
	spin := map[string]int{}
	spins := 0
	busyTarget, busyOther := 0, 0 // samples in which the code under test, or something else, was about to run
	last := int64(-1)
	for {
		time.Sleep(500 * time.Millisecond)
		st, seq := w.started.Load(), w.seq.Load()
		if st == 0 || w.done.Load() {
			count = 0
			continue
		}
		if seq != last {
			last, count, prev = seq, 0, ""
			spin, spins, busyTarget, busyOther = map[string]int{}, 0, 0, 0
		}
		age := time.Since(time.Unix(0, st))
		if age > 2*time.Second {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit {
				w.answer(Result{Inconclusive: "the case needs more than 5 GB of memory", Restart: true})
			}
		}
		if age < hangAfter-3*time.Second {
			continue
		}
		gs := goroutines()
		if h, key := hung(gs); h {
			head, stacks, _ := strings.Cut(key, "\x00")
			if head == prev {
				count++
			} else {
				prev, count = head, 1
			}
			if count >= 8 && age > hangAfter {
				w.answer(Result{Violation: "deadlock: nothing in the case can make progress any more\n" + trim(stacks, 2600), Restart: true, Labels: []string{"hang"}})
			}
		} else {
			count, prev = 0, ""
		}
		if age > spinAfter {
			spins++
			target, other := "", false
			for _, g := range gs {
				if g.state != "running" && g.state != "runnable" {
					continue
				}
				if blameGor(g.stack) {
					spin[g.id]++
					target = g.stack
				} else if strings.Contains(g.stack, "axverif/props") {
					other = true
				}
			}
			if target != "" {
				busyTarget++
			}
			if other {
				busyOther++
			}
			if spins > 30 && busyTarget > spins*9/10 && busyOther < spins/10 {
				w.answer(Result{Violation: fmt.Sprintf("never finishes: goroutines of the code under test have been busy for %v while the case waits for them\n%s", age.Round(time.Second), trim(target, 2000)), Restart: true, Labels: []string{"hang"}})
			}
			if spins > 30 {
				for id, n := range spin {
					if n > 27 {
						for _, g := range gs {
							if g.id == id {
								w.answer(Result{Violation: fmt.Sprintf("never finishes: the code under test has been running for %v\n%s", age.Round(time.Second), trim(g.stack, 2000)), Restart: true, Labels: []string{"hang"}})
							}
						}
					}
				}
			}
		}
		if age > giveUp {
			var b strings.Builder
			for _, g := range gs {
				if inTarget(g) || strings.Contains(g.stack, "axverif") {
					b.WriteString(g.stack + "\n\n")
				}
			}
			w.answer(Result{Inconclusive: "the case did not finish\n" + trim(b.String(), 6000), Restart: true})
		}
	}
}

// blameGor reports whether the innermost frame outside the standard library is
// the code under test.
func blameGor(stack string) bool {
	for i, l := range strings.Split(stack, "\n") {
		if i == 0 || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/axgrid/axutils") {
			return true
		}
		if strings.HasPrefix(l, "axverif") {
			return strings.HasPrefix(l, "axverif/yield")
		}
	}
	return false
}
