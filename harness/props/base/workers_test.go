package base

import (
	"context"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/workers"
	"pgregory.net/rapid"
)

type task struct {
	At  int  `json:"at"`  // virtual ms at which it is submitted
	Dur int  `json:"dur"` // virtual ms it runs
	Ctx bool `json:"ctx,omitempty"`
	By  int  `json:"by"` // submitting goroutine
	// it submits another task, of no duration, in its course
	Nest bool `json:"nest,omitempty"`
}
type runnerCase struct {
	Idle    int    `json:"idle,omitempty"` // seconds
	Workers int    `json:"w"`              // 0: the default
	Tasks   []task `json:"tasks"`
	Subs    int    `json:"subs"`
	Burst   int    `json:"burst"` // extra tasks of 1 ms at time 0
	Check   []int  `json:"check"` // ms at which parallelism is looked at
	Cancel  int    `json:"cancel"`
	Late    []task `json:"late"`
	Pre     bool   `json:"pre,omitempty"` // the context is cancelled before Build
}

func genRunner(t *rapid.T) runnerCase {
	c := runnerCase{
		Workers: rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 8, 16, 65, 130, 300}).Draw(t, "workers"),
		Subs:    rapid.IntRange(1, 4).Draw(t, "subs"),
	}
	tk := rapid.Custom(func(t *rapid.T) task {
		return task{
			At:  rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, 10, 25}).Draw(t, "at"),
			Dur: rapid.SampledFrom([]int{0, 1, 3, 10, 10, 40}).Draw(t, "dur"),
			Ctx: rapid.Bool().Draw(t, "ctx"),
			By:  rapid.IntRange(0, c.Subs-1).Draw(t, "by"),

			Nest: fw.Pct(t, "nest", 10),
		}
	})
	c.Tasks = fw.Ops(t, "tasks", 1, 120, tk)
	if fw.Pct(t, "isburst", 12) {
		c.Burst = rapid.IntRange(90, 350).Draw(t, "burst")
	}
	if fw.Pct(t, "idles", 20) {
		c.Idle = rapid.SampledFrom([]int{1, 60, 100_000}).Draw(t, "idle")
	}
	c.Check = rapid.SliceOfN(rapid.IntRange(0, 60), 1, 6).Draw(t, "check")
	return c
}

func genRunnerCancel(t *rapid.T) runnerCase {
	c := genRunner(t)
	c.Cancel = rapid.SampledFrom([]int{0, 1, 2, 4, 5, 9, 12, 30}).Draw(t, "cancel")
	c.Pre = fw.Pct(t, "pre", 8)
	if fw.Pct(t, "latemany", 20) {
		c.Late = make([]task, rapid.IntRange(100, 330).Draw(t, "nlate"))
		for i := range c.Late {
			c.Late[i] = task{Ctx: i%3 == 0, By: i % c.Subs}
		}
	} else {
		c.Late = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) task {
			return task{Ctx: rapid.Bool().Draw(t, "ctx"), Dur: rapid.IntRange(0, 3).Draw(t, "dur"), By: rapid.IntRange(0, c.Subs-1).Draw(t, "by")}
		}), 0, 8).Draw(t, "late")
	}
	return c
}

type ctxKey struct{}

type execLog struct {
	mu        sync.Mutex
	count     map[int]int
	ctxs      []context.Context // those the tasks got
	running   int
	maxRun    int
	started   int
	done      int
	cancelled atomic.Bool
	late      int
}

func runRunner(e *fw.Env, c runnerCase) {
	w := c.Workers
	if w == 0 {
		w = 5
	}
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "token"))
		defer cancel()
		b := workers.NewRunner().WithContext(ctx)
		if c.Workers > 0 {
			b = b.WithWorkerCount(c.Workers)
		}
		r := b.Build()
		l := &execLog{count: map[int]int{}}
		tasks := append([]task{}, c.Tasks...)
		for i := 0; i < c.Burst; i++ {
			tasks = append(tasks, task{Dur: 1, Ctx: i%2 == 0, By: i % c.Subs})
		}
		nested := 0
		for i := range tasks {
			// few enough never to fill the queue, where a worker could wait for itself
			if tasks[i].Nest = tasks[i].Nest && len(tasks) <= 70; tasks[i].Nest {
				nested++
			}
		}
		e.LabelIf(nested > 0, "tasks submit tasks")
		var submit func(id int, tk task)
		var submitted atomic.Int64 // calls of Run begun
		body := func(id int, tk task, got context.Context) {
			l.mu.Lock()
			l.count[id]++
			l.running++
			l.started++
			l.maxRun = max(l.maxRun, l.running)
			l.mu.Unlock()
			if tk.Ctx {
				if got == nil {
					e.Report("task %d got no context", id)
				} else if got.Value(ctxKey{}) != "token" {
					e.Report("task %d got a context that is not the runner's", id)
				} else if got.Err() != nil {
					e.Report("task %d got a context that is over: %v", id, got.Err())
				} else {
					l.mu.Lock()
					l.ctxs = append(l.ctxs, got)
					l.mu.Unlock()
				}
			}
			if tk.Dur > 0 {
				time.Sleep(time.Duration(tk.Dur) * time.Millisecond)
			}
			if tk.Nest {
				submitted.Add(1)
				submit(id+100000, task{Ctx: id%2 == 0})
			}
			l.mu.Lock()
			l.running--
			l.done++
			l.mu.Unlock()
		}
		submit = func(id int, tk task) {
			if tk.Ctx {
				r.RunWithContext(func(g context.Context) { body(id, tk, g) })
			} else {
				r.Run(func() { body(id, tk, nil) })
			}
		}
		if c.Idle > 0 { // used before, and then not for long
			for i := range 2 * w {
				if i%3 == 0 {
					r.RunWithContext(func(context.Context) {})
				} else {
					r.Run(func() {})
				}
			}
			fw.Sleep(time.Duration(c.Idle) * time.Second)
		}
		start := time.Now()
		for s := 0; s < c.Subs; s++ {
			go func() {
				for at := 0; at <= 25; at++ { // in order of submission time
					for i, tk := range tasks {
						if tk.By != s || tk.At != at {
							continue
						}
						if d := time.Duration(at)*time.Millisecond - time.Since(start); d > 0 {
							time.Sleep(d)
						}
						submitted.Add(1)
						submit(i, tk)
					}
				}
			}()
		}
		// full parallelism: whenever the system is at rest, as many tasks run
		// as there are workers or unfinished tasks
		at := map[int]bool{}
		for _, x := range c.Check {
			at[x] = true
		}
		for x := 0; x <= 60; x++ {
			if !at[x] {
				continue
			}
			fw.Sleep(time.Duration(x)*time.Millisecond + 500*time.Microsecond - time.Since(start))
			l.mu.Lock()
			running, outstanding := l.running, int(submitted.Load())-l.done
			l.mu.Unlock()
			if want := min(w, outstanding); running != want {
				e.Fail("at %dms %d tasks run, %d are submitted and unfinished, %d workers: want %d running", x, running, outstanding, w, want)
			}
			e.LabelIf(outstanding > w, "more tasks than workers")
			e.NonTrivial(outstanding > w)
		}
		fw.Sleep(30 * time.Second)
		l.mu.Lock()
		defer l.mu.Unlock()
		// the context a task got is the pool's: it lives when the task is over, and ends with the pool
		for _, x := range l.ctxs {
			if x.Err() != nil {
				e.Fail("the context a task got is over (%v) after the task, the pool's lives", x.Err())
			}
		}
		cancel()
		for _, x := range l.ctxs {
			if x.Err() == nil {
				e.Fail("the context a task got lives on after the pool's was cancelled")
			}
		}
		if l.maxRun > w {
			e.Fail("%d tasks ran at once with %d workers", l.maxRun, w)
		}
		for i, tk := range tasks {
			if l.count[i] != 1 {
				e.Fail("task %d of %d ran %d times", i, len(tasks), l.count[i])
			}
			if tk.Nest && l.count[i+100000] != 1 {
				e.Fail("the task submitted by task %d ran %d times", i, l.count[i+100000])
			}
		}
	})
}

func runRunnerCancel(e *fw.Env, c runnerCase) {
	w := c.Workers
	if w == 0 {
		w = 5
	}
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if c.Pre {
			cancel()
		}
		b := workers.NewRunner().WithContext(ctx)
		if c.Workers > 0 {
			b = b.WithWorkerCount(c.Workers)
		}
		r := b.Build()
		l := &execLog{count: map[int]int{}}
		if c.Pre {
			l.cancelled.Store(true)
			fw.Settle()
		}
		tasks := append([]task{}, c.Tasks...)
		for i := 0; i < c.Burst; i++ {
			tasks = append(tasks, task{Dur: 1, Ctx: i%2 == 0, By: i % c.Subs})
		}
		submit := func(id int, tk task) {
			f := func() {
				l.mu.Lock()
				l.count[id]++
				l.started++
				l.mu.Unlock()
				if l.cancelled.Load() {
					e.Report("task %d starts after the context was cancelled", id)
				}
				if tk.Dur > 0 {
					time.Sleep(time.Duration(tk.Dur) * time.Millisecond)
				}
			}
			if tk.Ctx {
				r.RunWithContext(func(context.Context) { f() })
			} else {
				r.Run(f)
			}
		}
		var pending atomic.Int64
		start := time.Now()
		for s := 0; s < c.Subs; s++ {
			go func() {
				for at := 0; at <= 25; at++ {
					for i, tk := range tasks {
						if tk.By != s || tk.At != at {
							continue
						}
						if d := time.Duration(at)*time.Millisecond - time.Since(start); d > 0 {
							time.Sleep(d)
						}
						pending.Add(1)
						submit(i, tk)
						pending.Add(-1)
					}
				}
			}()
		}
		fw.Sleep(time.Duration(c.Cancel)*time.Millisecond + 500*time.Microsecond)
		l.mu.Lock()
		before := l.started
		l.mu.Unlock()
		// everything is at rest: workers are inside a task or wait for one
		l.cancelled.Store(true)
		cancel()
		queued := len(tasks) - before
		e.NonTrivial(queued > 0 || len(c.Late) > 0)
		e.LabelIf(queued > 0, "tasks queued at cancellation")
		e.LabelIf(pending.Load() > 0, "submitters blocked at cancellation")
		for s := 0; s < c.Subs; s++ {
			go func() {
				for i, tk := range c.Late {
					if tk.By == s {
						pending.Add(1)
						submit(1000000+i, tk)
						pending.Add(-1)
					}
				}
			}()
		}
		// until the submitters have come, and every task that was running is over
		longest := 26
		for _, tk := range tasks {
			longest = max(longest, tk.Dur)
		}
		fw.Sleep(time.Duration(longest) * time.Millisecond)
		if n := pending.Load(); n != 0 {
			e.Fail("%d submitters are still blocked after the context was cancelled and all tasks are over", n)
		}
		e.NoStrays("after the end of the context and of the tasks that ran")
		l.mu.Lock()
		defer l.mu.Unlock()
		for id, n := range l.count {
			if n > 1 {
				e.Fail("task %d ran %d times", id, n)
			}
		}
	})
}

func init() {
	fw.Add("C06", "schedule", "at some point more tasks wait than there are workers", genRunner, runRunner, []fw.Run{fw.Plain(12000), fw.Sched(6000), fw.Race(800)})
	fw.Add("C07", "cancel", "tasks are queued at cancellation or submitted after it", genRunnerCancel, runRunnerCancel, []fw.Run{fw.Plain(16000), fw.Sched(4000), fw.Race(500)})
}
