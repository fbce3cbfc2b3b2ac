package maps

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"

	"axverif/fw"

	"pgregory.net/rapid"
)

// Many goroutines and many keys: the other lock parts never have more than six of either.

type crowdLock struct {
	Seed   uint64 `json:"seed"`
	Thr    int    `json:"thr"`
	Keys   int    `json:"keys"`
	Rounds int    `json:"rounds"`
	Held   int    `json:"held"`           // so many other keys are held at once, all the time
	Used   int    `json:"used,omitempty"` // so many others were held before
	Hot    bool   `json:"hot,omitempty"`  // every other section has one of four keys
	RW     bool   `json:"rw,omitempty"`
}

func genCrowdLock(rw bool) func(t *rapid.T) crowdLock {
	return func(t *rapid.T) crowdLock {
		return crowdLock{Seed: rapid.Uint64().Draw(t, "seed"), RW: rw,
			Thr:    rapid.SampledFrom([]int{2, 20, 80, 300}).Draw(t, "thr"),
			Keys:   rapid.SampledFrom([]int{1, 2, 10, 100, 1000}).Draw(t, "keys"),
			Rounds: rapid.IntRange(1, 5).Draw(t, "rounds"),
			Held:   rapid.SampledFrom([]int{0, 1, 50, 700}).Draw(t, "held"),
			Used:   rapid.SampledFrom([]int{0, 0, 0, 200, 1200, 6000}).Draw(t, "used"),
			Hot:    rapid.Bool().Draw(t, "hot")}
	}
}

func runCrowdLock(e *fw.Env, c crowdLock) {
	if c.Seed%2 == 0 {
		runCrowdLockK(e, c, func(i int) int { return i })
	} else {
		runCrowdLockK(e, c, func(i int) string { return fmt.Sprint("key ", i) })
	}
}

func runCrowdLockK[K comparable](e *fw.Env, c crowdLock, of func(int) K) {
	l := newLocker[K](c.RW)
	r := rand.New(rand.NewPCG(c.Seed, 9))
	for i := range c.Used {
		l.lock(of(c.Keys + c.Held + i))
		l.unlock(of(c.Keys + c.Held + i))
		if c.RW && i%2 == 0 {
			l.rlock(of(c.Keys + c.Held + i))
			l.runlock(of(c.Keys + c.Held + i))
		}
	}
	for i := range c.Held { // each waits for no other
		if c.RW && (i%3 == 0) {
			l.rlock(of(c.Keys + i))
		} else {
			l.lock(of(c.Keys + i))
		}
	}
	type step struct {
		k    int
		read bool
	}
	plan := make([][]step, c.Thr)
	want := make([]int, c.Keys)
	for t := range plan {
		for i := range c.Rounds {
			s := step{r.IntN(c.Keys), c.RW && r.IntN(2) == 0}
			if c.Hot && i%2 == t%2 {
				s.k %= 4
			}
			plan[t] = append(plan[t], s)
			if !s.read {
				want[s.k]++
			}
		}
	}
	plain := make([]int, c.Keys) // guarded by the locks under test alone
	writers, readers := make([]atomic.Int32, c.Keys), make([]atomic.Int32, c.Keys)
	var most atomic.Int32
	waiting := make([]atomic.Int32, c.Keys)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, p := range plan {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, s := range p {
				if n := waiting[s.k].Add(1); n > most.Load() {
					most.Store(n)
				}
				if s.read {
					l.rlock(of(s.k))
					readers[s.k].Add(1)
					x := plain[s.k]
					runtime.Gosched()
					if n := writers[s.k].Load(); n != 0 || plain[s.k] != x {
						e.Report("a reader is inside key %d together with %d writers", s.k, n)
					}
					readers[s.k].Add(-1)
					waiting[s.k].Add(-1)
					l.runlock(of(s.k))
					continue
				}
				l.lock(of(s.k))
				if n, m := writers[s.k].Add(1), readers[s.k].Load(); n != 1 || m != 0 {
					e.Report("%d writers and %d readers are inside key %d of %d", n, m, s.k, c.Keys)
				}
				x := plain[s.k]
				runtime.Gosched()
				plain[s.k] = x + 1
				writers[s.k].Add(-1)
				waiting[s.k].Add(-1)
				l.unlock(of(s.k))
			}
		}()
	}
	close(start)
	wg.Wait()
	for i := range c.Held {
		if c.RW && i%3 == 0 {
			l.runlock(of(c.Keys + i))
		} else {
			l.unlock(of(c.Keys + i))
		}
	}
	for k, n := range want {
		l.lock(of(k)) // nothing stays locked
		if plain[k] != n {
			e.Fail("key %d of %d: %d sections counted %d", k, c.Keys, n, plain[k])
		}
		l.unlock(of(k))
	}
	e.LabelIf(c.Held > 100, "700 keys held at once")
	fw.LabelCrowd(e, int(most.Load()))
	e.NonTrivial(c.Thr >= 20)
}

func init() {
	runs := []fw.Run{fw.Plain(60), fw.Sched(30), fw.Race(20)}
	fw.Add("C28", "crowd", "twenty goroutines or more", genCrowdLock(false), runCrowdLock, runs, fw.Reps(10))
	fw.Add("C29", "crowd", "twenty goroutines or more", genCrowdLock(true), runCrowdLock, runs, fw.Reps(10))
}
