package maps

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// Values of every kind: nothing, nil pointers, values that cannot be compared.

type valOp struct {
	Op string `json:"op"`
	A  int    `json:"a"`
	B  int    `json:"b,omitempty"`
	V  int    `json:"v,omitempty"`
}
type valCase struct {
	Shards int     `json:"shards,omitempty"`
	Ops    []valOp `json:"ops"`
}

func genVal(ops ...string) func(t *rapid.T) valCase {
	return func(t *rapid.T) valCase {
		return valCase{Shards: rapid.SampledFrom([]int{0, 1, 3, 6}).Draw(t, "shards"),
			Ops: fw.Ops(t, "ops", 1, 40, rapid.Custom(func(t *rapid.T) valOp {
				return valOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), A: rapid.IntRange(0, 4).Draw(t, "a"), B: rapid.IntRange(0, 4).Draw(t, "b"), V: rapid.IntRange(0, 13).Draw(t, "v")}
			}))}
	}
}

func newAny(shards int) collections.Map[int, any] {
	if shards == 0 {
		return collections.NewSimpleMap[int, any]()
	}
	return collections.NewShardMap[int, any]().WithShardsCount(shards).WithShardsFunc(func(k int) int { return k % shards }).Build()
}

func runValKV(e *fw.Env, c valCase) {
	m := newAny(c.Shards)
	have := map[int]int{}
	want := func(k int) (any, bool) {
		v, ok := have[k]
		if !ok {
			return nil, false
		}
		return fw.Odd(v), true
	}
	for n, o := range c.Ops {
		old, has := want(o.A)
		switch o.Op {
		case "set":
			m.Set(o.A, fw.Odd(o.V))
			have[o.A] = o.V
		case "delete":
			m.Delete(o.A)
			delete(have, o.A)
		case "sine":
			if got := m.SetIfNotExists(o.A, fw.Odd(o.V)); got == has {
				e.Fail("op %d %+v = %v; numbers of the values: %v", n, o, got, have)
			}
			if !has {
				have[o.A] = o.V
			}
		case "sinef":
			calls := 0
			got, fresh := m.SetIfNotExistsWithFunc(o.A, func() any { calls++; return fw.Odd(o.V) })
			if !has {
				old = fw.Odd(o.V)
				have[o.A] = o.V
			}
			if fresh == has || (calls == 1) == has || !fw.SameOdd(got, old) {
				e.Fail("op %d %+v = %s, %v after %d calls; numbers of the values: %v", n, o, fw.ShowOdd(got), fresh, calls, have)
			}
		}
		for k := range 5 {
			w, wok := want(k)
			if v, ok := m.Get(k); ok != wok || !fw.SameOdd(v, w) || m.Has(k) != wok {
				e.Fail("after op %d %+v: Get(%d) = %s, %v, Has = %v; want %s, %v", n, o, k, fw.ShowOdd(v), ok, m.Has(k), fw.ShowOdd(w), wok)
			}
		}
		if m.Size() != len(have) {
			e.Fail("after op %d %+v: Size = %d, want %d", n, o, m.Size(), len(have))
		}
	}
	e.NonTrivial(len(c.Ops) > 3)
}

func runValTwo(e *fw.Env, c valCase) {
	m := collections.NewTwoKeyMap[int, any, any]()
	type ent struct{ b, v int }
	have := map[int]ent{} // by first key; each has its partner in these cases
	for n, o := range c.Ops {
		switch o.Op {
		case "put":
			// a partner of its own, so that no pairing is taken away
			o.B = o.A
			m.Put(o.A, anyKey(o.B), fw.Odd(o.V))
			have[o.A] = ent{o.B, o.V}
		case "rm":
			m.Remove(o.A)
			delete(have, o.A)
		case "rm2":
			m.RemoveByK2(anyKey(o.B))
			delete(have, o.B)
		}
		for k := range 5 {
			x, wok := have[k]
			w := any(nil)
			if wok {
				w = fw.Odd(x.v)
			}
			v, ok := m.Get(k)
			v2, ok2 := m.GetByK2(anyKey(k))
			if ok != wok || ok2 != wok || !fw.SameOdd(v, w) || !fw.SameOdd(v2, w) {
				e.Fail("after op %d %+v: Get(%d) = %s, %v, by the second key %s, %v; want %s, %v", n, o, k, fw.ShowOdd(v), ok, fw.ShowOdd(v2), ok2, fw.ShowOdd(w), wok)
			}
		}
		if m.Len() != len(have) || len(m.Keys()) != len(have) || len(m.KeysK2()) != len(have) {
			e.Fail("after op %d %+v: Len = %d, %d and %d keys; want %d", n, o, m.Len(), len(m.Keys()), len(m.KeysK2()), len(have))
		}
	}
	e.NonTrivial(len(c.Ops) > 3)
}

// Many goroutines that create many keys.

type crowdOnce struct {
	Seed   uint64 `json:"seed"`
	Thr    int    `json:"thr"`
	Keys   int    `json:"keys"`
	Shards int    `json:"shards"`
}

func runCrowdOnce(e *fw.Env, c crowdOnce) {
	m := newAny(c.Shards)
	r := rand.New(rand.NewPCG(c.Seed, 9))
	calls, fresh := make([]atomic.Int32, c.Keys), make([]atomic.Int32, c.Keys)
	var wg sync.WaitGroup
	start := make(chan struct{})
	used := map[int]bool{}
	for range c.Thr {
		ks := []int{}
		for range 6 {
			ks = append(ks, r.IntN(c.Keys))
			used[ks[len(ks)-1]] = true
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, k := range ks {
				v, ok := m.SetIfNotExistsWithFunc(k, func() any {
					calls[k].Add(1)
					runtime.Gosched()
					return fw.Odd(k)
				})
				if ok {
					fresh[k].Add(1)
				}
				if !fw.SameOdd(v, fw.Odd(k)) {
					e.Report("key %d of %d: got %s, the create function returns %s", k, c.Keys, fw.ShowOdd(v), fw.ShowOdd(fw.Odd(k)))
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for k := range calls {
		want := int32(0)
		if used[k] {
			want = 1
		}
		if calls[k].Load() != want || fresh[k].Load() != want {
			e.Fail("key %d of %d: %d calls of the create function, %d calls created it; want %d", k, c.Keys, calls[k].Load(), fresh[k].Load(), want)
		}
	}
	if m.Size() != len(used) {
		e.Fail("Size = %d, %d keys were created", m.Size(), len(used))
	}
	e.NonTrivial(c.Thr >= 20)
}

func init() {
	const rule = "more than three operations"
	fw.Add("C30", "values", rule, genVal("set", "set", "delete", "sine", "sinef"), runValKV, []fw.Run{fw.Plain(300)})
	fw.Add("C26", "values", rule, genVal("put", "put", "rm", "rm2"), runValTwo, []fw.Run{fw.Plain(300)})
	fw.Add("C31", "crowd", "twenty goroutines or more", func(t *rapid.T) crowdOnce {
		return crowdOnce{Seed: rapid.Uint64().Draw(t, "seed"),
			Thr:    rapid.SampledFrom([]int{2, 20, 80, 300}).Draw(t, "thr"),
			Keys:   rapid.SampledFrom([]int{1, 2, 10, 100, 1000}).Draw(t, "keys"),
			Shards: rapid.SampledFrom([]int{0, 1, 3, 6}).Draw(t, "shards")}
	}, runCrowdOnce, []fw.Run{fw.Plain(60), fw.Sched(30), fw.Race(20)}, fw.Reps(10))
}
