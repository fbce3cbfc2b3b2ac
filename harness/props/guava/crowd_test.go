package guava

import (
	"errors"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// Many goroutines and many keys.

type crowdCase struct {
	Seed uint64 `json:"seed"`
	Thr  int    `json:"thr"`
	Keys int    `json:"keys"`
	Deep int    `json:"deep"` // so many updates, or loads, inside each other
}

func genCrowd(t *rapid.T) crowdCase {
	return crowdCase{Seed: rapid.Uint64().Draw(t, "seed"),
		Thr:  rapid.SampledFrom([]int{2, 20, 80, 300}).Draw(t, "thr"),
		Keys: rapid.SampledFrom([]int{1, 2, 10, 100, 400}).Draw(t, "keys"),
		Deep: rapid.SampledFrom([]int{1, 20, 700}).Draw(t, "deep")}
}

func (c crowdCase) plan() [][]int {
	r := rand.New(rand.NewPCG(c.Seed, 4))
	plan := make([][]int, c.Thr)
	for t := range plan {
		for range 4 {
			plan[t] = append(plan[t], r.IntN(c.Keys))
		}
	}
	return plan
}

func (c crowdCase) play(do func(k int)) (most int32) {
	var m atomic.Int32
	waiting := make([]atomic.Int32, c.Keys)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, p := range c.plan() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, k := range p {
				if n := waiting[k].Add(1); n > m.Load() {
					m.Store(n)
				}
				do(k)
				waiting[k].Add(-1)
			}
		}()
	}
	close(start)
	wg.Wait()
	return m.Load()
}

func runCrowdUpdate(e *fw.Env, c crowdCase) {
	m := collections.NewGuavaMap[int, int]().Build()
	want := map[int]int{}
	for _, p := range c.plan() {
		for _, k := range p {
			want[k]++
		}
	}
	// updates of different keys inside each other, none waits
	var nest func(d int) int
	nest = func(d int) int {
		if d == c.Deep {
			fw.LabelCrowd(e, int(c.play(func(k int) {
				m.LockForUpdate(k, func() int {
					v, _ := m.Get(k)
					runtime.Gosched()
					return v + 1
				})
			})))
			return 0
		}
		return 1 + m.LockForUpdate(-1-d, func() int { return nest(d + 1) })
	}
	if n := nest(0); n != c.Deep {
		e.Fail("%d updates inside each other return %d", c.Deep, n)
	}
	got := m.GetStored()
	if len(got) != len(want)+c.Deep {
		e.Fail("%d keys are there, %d were updated", len(got), len(want)+c.Deep)
	}
	for k, n := range want {
		if got[k] != n {
			e.Fail("%d increments of key %d, one of %d, made it %d", n, k, c.Keys, got[k])
		}
	}
	e.LabelIf(c.Deep > 100, "700 updates inside each other")
	e.NonTrivial(c.Thr >= 20)
}

func runCrowdLoad(e *fw.Env, c crowdCase) {
	var m *collections.GuavaMap[int, any]
	loads := make([]atomic.Int32, c.Keys)
	boom := errors.New("boom")
	m = collections.NewGuavaMap[int, any]().WithLockLoad(true).WithLoadFunc(func(k int) (any, error) {
		if k < 0 { // loads inside each other, none waits
			if k == -c.Deep {
				return k, nil
			}
			return m.Get(k - 1)
		}
		n := loads[k].Add(1)
		for range 3 {
			runtime.Gosched()
		}
		if k%5 == 4 && n == 1 {
			return "not this", boom
		}
		return fw.Odd(k), nil
	}).Build()
	if v, err := m.Get(-1); v != -c.Deep || err != nil {
		e.Fail("%d loads inside each other return %v, %v", c.Deep, v, err)
	}
	var failed atomic.Int32
	fw.LabelCrowd(e, int(c.play(func(k int) {
		v, err := m.Get(k)
		if err != nil && (err != boom || k%5 != 4 || v != nil) {
			e.Report("Get(%d) = %s, %v", k, fw.ShowOdd(v), err)
		}
		if err != nil {
			failed.Add(1)
			return
		}
		if !fw.SameOdd(v, fw.Odd(k)) {
			e.Report("Get(%d) = %s, want %s", k, fw.ShowOdd(v), fw.ShowOdd(fw.Odd(k)))
		}
	})))
	due := 0
	for k := range loads {
		n := loads[k].Load()
		used := 0
		for _, p := range c.plan() {
			for _, kk := range p {
				if kk == k {
					used++
				}
			}
		}
		want := min(used, 1)
		if k%5 == 4 {
			due += want
			if n == 2 {
				want = 2
			}
		}
		if int(n) != want {
			e.Fail("key %d, which is stored after %d loads, was loaded %d times by %d Gets", k, want, n, used)
		}
	}
	if int(failed.Load()) < due {
		e.Fail("%d loads failed, %d Gets said so", due, failed.Load())
	}
	e.LabelIf(c.Deep > 100, "700 loads inside each other")
	e.NonTrivial(c.Thr >= 20)
}

// Values of every kind.

type valOp struct {
	Op string `json:"op"`
	K  int    `json:"k"`
	V  int    `json:"v"`
}
type valCase struct {
	Max  int     `json:"max,omitempty"`
	Load string  `json:"load,omitempty"`
	Lock bool    `json:"lock,omitempty"`
	Ops  []valOp `json:"ops"`
}

func genVal(load bool) func(t *rapid.T) valCase {
	return func(t *rapid.T) valCase {
		c := valCase{Max: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "max"), Lock: rapid.Bool().Draw(t, "lock")}
		if load || rapid.Bool().Draw(t, "loads") {
			c.Load = rapid.SampledFrom([]string{"ok", "flaky"}).Draw(t, "load")
		}
		c.Ops = fw.Ops(t, "ops", 1, 40, rapid.Custom(func(t *rapid.T) valOp {
			return valOp{Op: rapid.SampledFrom([]string{"set", "get", "get", "create", "update", "delete", "has"}).Draw(t, "op"),
				K: rapid.IntRange(0, 4).Draw(t, "k"), V: rapid.IntRange(0, 13).Draw(t, "v")}
		}))
		return c
	}
}

func runVal(e *fw.Env, c valCase) {
	loads := map[int]int{}
	next := 0
	boom := errors.New("boom")
	var gone []any
	var mu sync.Mutex
	b := collections.NewGuavaMap[int, any]().WithMaxCount(c.Max)
	if c.Load != "" {
		b = b.WithLockLoad(c.Lock).WithLoadFunc(func(k int) (any, error) {
			loads[k]++
			if c.Load == "flaky" && loads[k]%2 == 1 {
				return 99, boom
			}
			return fw.Odd(next), nil
		})
	}
	e.Bubble(func() {
		m := b.WithUnloadFunc(func(k int, v any) {
			mu.Lock()
			defer mu.Unlock()
			gone = append(gone, v)
		}).Build()
		have := map[int]int{}
		var order []int
		var left []int
		nils := false
		out := func(k int) {
			left = append(left, have[k])
			delete(have, k)
			for i, x := range order {
				if x == k {
					order = append(order[:i:i], order[i+1:]...)
					break
				}
			}
		}
		put := func(k, v int) {
			if _, ok := have[k]; !ok {
				if c.Max > 0 && len(order) >= c.Max {
					out(order[0])
				}
				order = append(order, k)
			}
			have[k] = v
			nils = nils || v != 13
		}
		for n, o := range c.Ops {
			v, has := have[o.K]
			next = o.V
			switch o.Op {
			case "set":
				m.Set(o.K, fw.Odd(o.V))
				put(o.K, o.V)
			case "update":
				if got := m.LockForUpdate(o.K, func() any { return fw.Odd(o.V) }); !fw.SameOdd(got, fw.Odd(o.V)) {
					e.Fail("op %d %+v returned %s", n, o, fw.ShowOdd(got))
				}
				put(o.K, o.V)
			case "create":
				if got := m.HasOrCreate(o.K, fw.Odd(o.V)); got != has {
					e.Fail("op %d %+v = %v; values %v", n, o, got, have)
				}
				if !has {
					put(o.K, o.V)
				}
			case "has":
				if got := m.Has(o.K); got != has {
					e.Fail("op %d %+v = %v; values %v", n, o, got, have)
				}
			case "delete":
				m.Delete(o.K)
				if has {
					out(o.K)
				}
			case "get":
				before := loads[o.K]
				got, err := m.Get(o.K)
				want := any(nil)
				var wantErr error
				called := 0
				switch {
				case has:
					want = fw.Odd(v)
				case c.Load != "":
					called = 1
					if c.Load == "flaky" && before%2 == 0 {
						wantErr = boom
						break
					}
					want = fw.Odd(o.V)
					put(o.K, o.V)
				}
				if err != wantErr || !fw.SameOdd(got, want) || loads[o.K] != before+called {
					e.Fail("op %d %+v = %s, %v after %d loads; want %s, %v after %d; there: %v", n, o, fw.ShowOdd(got), err, loads[o.K]-before, fw.ShowOdd(want), wantErr, called, has)
				}
			}
			got := m.GetStored()
			ok := len(got) == len(have) && m.Size() == len(have)
			for k, v := range have {
				x, there := got[k]
				ok = ok && there && fw.SameOdd(x, fw.Odd(v))
			}
			if !ok {
				e.Fail("after op %d %+v the map holds %v, want those with numbers %v", n, o, got, have)
			}
			fw.Settle()
			mu.Lock()
			if len(gone) != len(left) {
				e.Fail("after op %d %+v: %d values left, %d were unloaded", n, o, len(left), len(gone))
			}
			for i, v := range left {
				if !fw.SameOdd(gone[i], fw.Odd(v)) {
					e.Fail("after op %d %+v: %s left, %s was unloaded", n, o, fw.ShowOdd(fw.Odd(v)), fw.ShowOdd(gone[i]))
				}
			}
			mu.Unlock()
		}
		e.NonTrivial(nils && len(c.Ops) > 3)
	})
}

func init() {
	runs := []fw.Run{fw.Plain(40), fw.Sched(20), fw.Race(12)}
	fw.Add("C36", "crowd", "twenty goroutines or more", genCrowd, runCrowdUpdate, runs, fw.Reps(10))
	fw.Add("C35", "crowd", "twenty goroutines or more", genCrowd, runCrowdLoad, runs, fw.Reps(10))
	fw.Add("C32", "values", "a value that is not just a number", genVal(false), runVal, []fw.Run{fw.Plain(500)})
	fw.Add("C35", "values", "a value that is not just a number", genVal(true), runVal, []fw.Run{fw.Plain(500)})
}
