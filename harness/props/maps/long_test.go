package maps

import (
	"context"
	"fmt"
	"math/rand/v2"
	"slices"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// Long histories over many keys: the short ones never hold more than some forty
// elements, nor do they do more than a hundred things.

type longCase struct {
	Keys  string `json:"keys"`
	Seed  int    `json:"seed"`
	N     int    `json:"n"`
	Top   int    `json:"top"`
	Max   int    `json:"max,omitempty"`
	Wave  int    `json:"wave"`            // so many operations each of growing, mixing and shrinking
	Order int    `json:"order,omitempty"` // how keys are chosen: anyhow, one after the other, or from a window that moves
	Route int    `json:"route,omitempty"`
}

func genLong(max bool) func(t *rapid.T) longCase {
	return func(t *rapid.T) longCase {
		c := longCase{Keys: drawKeyKind(t),
			Seed:  rapid.IntRange(0, 1<<20).Draw(t, "seed"),
			Order: rapid.IntRange(0, 2).Draw(t, "order"),
			Top:   rapid.SampledFrom([]int{100, 300, 700, 2000, 5000}).Draw(t, "top")}
		c.N = rapid.OneOf(rapid.IntRange(100, 1200), rapid.IntRange(1200, 8000)).Draw(t, "n")
		c.Wave = rapid.SampledFrom([]int{40, 150, 400, 1500}).Draw(t, "wave")
		if max {
			c.Max = rapid.SampledFrom([]int{0, 17, 33, 65, 100, 129, 257, 500, 1025}).Draw(t, "max")
		}
		c.Route = rapid.IntRange(0, 9).Draw(t, "route")
		return c
	}
}

// walk chooses what to do: op is "in", "out", "look" or "all" (all out), each with a key.
type walk struct {
	c    longCase
	r    *rand.Rand
	i, k int
}

func (c longCase) walk() *walk { return &walk{c: c, r: rand.New(rand.NewPCG(uint64(c.Seed), 5))} }

func (w *walk) next() (op string, k int) {
	i := w.i
	w.i++
	switch w.c.Order {
	case 0:
		k = w.r.IntN(w.c.Top)
	case 1:
		w.k++
		k = w.k % w.c.Top
	default:
		k = (i/4 + w.r.IntN(min(w.c.Top, 130))) % w.c.Top
	}
	in, out := 85, 95
	switch i / w.c.Wave % 3 {
	case 1:
		in, out = 40, 70
	case 2:
		in, out = 10, 80
	}
	if w.r.IntN(3000) == 0 {
		return "all", k
	}
	switch x := w.r.IntN(100); {
	case x < in:
		return "in", k
	case x < out:
		return "out", k
	}
	return "look", k
}

// due tells when to compare everything
func (w *walk) due() bool {
	return w.i == w.c.N || w.r.IntN(1+w.c.N/25) == 0 || w.i%w.c.Wave == 0 && w.r.IntN(3) == 0
}

func runLong(of map[string]func(*fw.Env, longCase)) func(*fw.Env, longCase) {
	return func(e *fw.Env, c longCase) {
		e.Label(fw.SizeLabel(c.N))
		of[c.Keys](e, c)
	}
}

func longBy(i func(*fw.Env, longCase, func(int) int), s func(*fw.Env, longCase, func(int) string), f func(*fw.Env, longCase, func(int) float64),
	st func(*fw.Env, longCase, func(int) structKey), a func(*fw.Env, longCase, func(int) any)) func(*fw.Env, longCase) {
	return runLong(map[string]func(*fw.Env, longCase){
		"int":    func(e *fw.Env, c longCase) { i(e, c, intKey) },
		"string": func(e *fw.Env, c longCase) { s(e, c, strKey) },
		"float":  func(e *fw.Env, c longCase) { f(e, c, floatKey) },
		"struct": func(e *fw.Env, c longCase) { st(e, c, stKey) },
		"any":    func(e *fw.Env, c longCase) { a(e, c, anyKey) },
	})
}

// same compares a listing with a model.
func same[K comparable, V any](e *fw.Env, when, what string, got []K, want map[K]V) {
	seen := make(map[K]bool, len(got))
	for _, k := range got {
		if _, ok := want[k]; !ok {
			e.Fail("%s: %s lists %v, which is not there", when, what, k)
		}
		if seen[k] {
			e.Fail("%s: %s lists %v twice", when, what, k)
		}
		seen[k] = true
	}
	if len(got) != len(want) {
		for k := range want {
			if !seen[k] {
				e.Fail("%s: %s lists %d elements of %d; %v is missing", when, what, len(got), len(want), k)
			}
		}
	}
}

func longSet[K comparable](e *fw.Env, c longCase, of func(int) K) {
	var s *collections.Set[K]
	m := map[K]bool{}
	if c.Route < 5 {
		s = collections.NewSet[K]()
	} else {
		var init []K
		for i := 0; i < c.Top/2; i++ {
			init = append(init, of(i))
			m[of(i)] = true
		}
		s = collections.NewSet(init...)
	}
	w := c.walk()
	most := 0
	for w.i < c.N {
		op, k := w.next()
		when := fmt.Sprintf("step %d %s %v of %d elements", w.i, op, of(k), len(m))
		switch op {
		case "in":
			if w.r.IntN(60) == 0 {
				var ks []K
				for j := w.r.IntN(300); j > 0; j-- {
					ks = append(ks, of((k+j)%c.Top))
					m[of((k+j)%c.Top)] = true
				}
				s.AddAll(ks...)
				if !s.HasAll(ks...) {
					e.Fail("%s: HasAll of %d elements just added is false", when, len(ks))
				}
				break
			}
			s.Add(of(k))
			m[of(k)] = true
		case "out":
			s.Remove(of(k))
			delete(m, of(k))
		case "look":
			if got := s.Has(of(k)); got != m[of(k)] {
				e.Fail("%s: Has = %v", when, got)
			}
		case "all":
			s.Clear()
			clear(m)
		}
		most = max(most, len(m))
		if got := s.Size(); got != len(m) {
			e.Fail("after %s: size %d, there are %d", when, got, len(m))
		}
		if !w.due() {
			continue
		}
		same(e, when, "Values", s.Values(), m)
		same(e, when, "All", s.All(), m)
		q := s.Clone()
		if !q.Equals(s) || !s.Equals(q) {
			e.Fail("after %s: the clone of %d elements does not equal its origin", when, len(m))
		}
		vs := s.Values()
		if len(vs) > 0 {
			if !s.HasAll(vs...) || !s.HasAny(vs[len(vs)-1]) {
				e.Fail("after %s: HasAll of all %d elements, or HasAny of one, is false", when, len(vs))
			}
			gone := vs[w.r.IntN(len(vs))]
			q.Remove(gone)
			if q.Equals(s) || s.Equals(q) || !s.Has(gone) || q.HasAll(vs...) {
				e.Fail("after %s: %v was removed from a clone of %d elements, which makes no difference", when, gone, len(vs))
			}
			q.Add(of(c.Top + 7))
			if q.Size() != len(vs) || q.Equals(s) || s.Equals(q) {
				e.Fail("after %s: a set of %d elements equals one that differs in one", when, len(vs))
			}
			var no []K
			for j := 0; j < 200; j++ {
				no = append(no, of(c.Top+8+j))
			}
			if s.HasAny(no...) || !s.HasAny(append(no, gone)...) || s.HasAll(append(vs, no[0])...) {
				e.Fail("after %s: HasAny or HasAll of many elements is wrong", when)
			}
		}
		for i := 0; i < c.Top; i++ {
			if s.Has(of(i)) != m[of(i)] {
				e.Fail("after %s: Has(%v) = %v", when, of(i), !m[of(i)])
			}
		}
	}
	e.NonTrivial(most > 60)
}

func longHash[K comparable](e *fw.Env, c longCase, of func(int) K) {
	s := buildHS[K](c.Max)
	m := map[K]bool{}
	var order []K
	w := c.walk()
	most, evicted := 0, 0
	for w.i < c.N {
		op, k := w.next()
		key := of(k)
		when := fmt.Sprintf("step %d %s %v of %d elements, max %d", w.i, op, key, len(m), c.Max)
		has := m[key]
		switch op {
		case "in":
			if w.r.IntN(2) == 0 {
				s.Add(key)
			} else if got := s.HasOrCreate(key); got != has {
				e.Fail("%s: HasOrCreate = %v", when, got)
			}
			if !has {
				m[key] = true
				order = append(order, key)
				if c.Max > 0 && len(order) > c.Max {
					delete(m, order[0])
					if s.Has(order[0]) {
						e.Fail("%s: %v was added longest ago and is still there", when, order[0])
					}
					order = order[1:]
					evicted++
				}
			}
		case "out":
			s.Delete(key)
			delete(m, key)
			if i := slices.Index(order, key); has {
				order = slices.Delete(order, i, i+1)
			}
		case "look":
			if got := s.Has(key); got != has {
				e.Fail("%s: Has = %v", when, got)
			}
		case "all":
			s.Clear()
			clear(m)
			order = nil
		}
		most = max(most, len(m))
		if got := s.Count(); got != len(m) {
			e.Fail("after %s: Count = %d, there are %d", when, got, len(m))
		}
		if w.due() {
			same(e, when, "Keys", s.Keys(), m)
			for i := 0; i < c.Top; i++ {
				if s.Has(of(i)) != m[of(i)] {
					e.Fail("after %s: Has(%v) = %v; %d elements were evicted so far", when, of(i), !m[of(i)], evicted)
				}
			}
		}
	}
	e.LabelIf(evicted > 50, "more than 50 evictions")
	e.NonTrivial(most > 60 || evicted > 50)
}

func longTwo[K comparable](e *fw.Env, c longCase, of func(int) K) {
	m := collections.NewTwoKeyMap[K, int, int]()
	type ent struct {
		v, k2  int
		paired bool
	}
	data := map[K]*ent{}
	by2 := map[int]K{}
	w := c.walk()
	most := 0
	for w.i < c.N {
		op, k := w.next()
		k1, k2 := of(k), k*3
		if w.r.IntN(4) == 0 {
			k2 = w.r.IntN(c.Top) * 3
		}
		when := fmt.Sprintf("step %d %s %v/%d of %d entries", w.i, op, k1, k2, len(data))
		switch op {
		case "in":
			if x := data[k1]; x != nil && x.paired {
				delete(by2, x.k2)
			}
			if old, ok := by2[k2]; ok {
				data[old].paired = false
			}
			data[k1] = &ent{w.i, k2, true}
			by2[k2] = k1
			m.Put(k1, k2, w.i)
		case "out":
			if w.r.IntN(2) == 0 {
				if x := data[k1]; x != nil {
					if x.paired {
						delete(by2, x.k2)
					}
					delete(data, k1)
				}
				m.Remove(k1)
			} else {
				if old, ok := by2[k2]; ok {
					delete(data, old)
					delete(by2, k2)
				}
				m.RemoveByK2(k2)
			}
		}
		most = max(most, len(data))
		look := func(k1 K, k2 int) {
			v, ok := m.Get(k1)
			x := data[k1]
			if ok != (x != nil) || ok && v != x.v {
				e.Fail("after %s: Get(%v) = %d, %v", when, k1, v, ok)
			}
			v, ok = m.GetByK2(k2)
			o, has := by2[k2]
			if ok != has || ok && v != data[o].v {
				e.Fail("after %s: GetByK2(%d) = %d, %v", when, k2, v, ok)
			}
		}
		look(k1, k2)
		if got := m.Len(); got != len(data) {
			e.Fail("after %s: Len = %d, there are %d", when, got, len(data))
		}
		if w.due() {
			same(e, when, "Keys", m.Keys(), data)
			same(e, when, "KeysK2", m.KeysK2(), by2)
			for i := 0; i < c.Top; i++ {
				look(of(i), 3*i)
			}
		}
	}
	e.NonTrivial(most > 60)
}

func longKV[K comparable](e *fw.Env, c longCase, of func(int) K) {
	var m collections.Map[K, int]
	back := map[K]int{}
	for i := 0; i < c.Top; i++ {
		back[of(i)] = i
	}
	if c.Route < 3 {
		e.Label("SimpleMap")
		m = collections.NewSimpleMap[K, int]()
	} else {
		e.Label("ShardMap")
		n := []int{1, 2, 5, 16, 64, 100, 300}[c.Route-3]
		m = collections.NewShardMap[K, int]().WithShardsCount(n).WithShardsFunc(func(k K) int { return back[k] * 11 % n }).Build()
	}
	data := map[K]int{}
	w := c.walk()
	most := 0
	for w.i < c.N {
		op, i := w.next()
		k := of(i)
		when := fmt.Sprintf("step %d %s %v of %d entries", w.i, op, k, len(data))
		was, has := data[k]
		switch op {
		case "in":
			switch w.r.IntN(4) {
			case 0:
				if got := m.SetIfNotExists(k, w.i); got == has {
					e.Fail("%s: SetIfNotExists = %v", when, got)
				}
				if !has {
					data[k] = w.i
				}
			case 1:
				want := w.i
				if has {
					want = was
				} else {
					data[k] = w.i
				}
				if v, ok := m.SetIfNotExistsWithFunc(k, func() int { return w.i }); v != want || ok == has {
					e.Fail("%s: SetIfNotExistsWithFunc = %d, %v", when, v, ok)
				}
			default:
				m.Set(k, w.i)
				data[k] = w.i
			}
		case "out":
			m.Delete(k)
			delete(data, k)
		case "all":
			if x, ok := m.(clearer); ok {
				x.Clear()
				clear(data)
			}
		}
		look := func(k K) {
			v, ok := m.Get(k)
			want, has := data[k]
			if v != want || ok != has || m.Has(k) != has {
				e.Fail("after %s: Get(%v) = %d, %v, Has = %v; want %d, %v", when, k, v, ok, m.Has(k), want, has)
			}
		}
		look(k)
		most = max(most, len(data))
		if got := m.Size(); got != len(data) {
			e.Fail("after %s: Size = %d, there are %d", when, got, len(data))
		}
		if w.due() {
			for i := 0; i < c.Top; i++ {
				look(of(i))
			}
		}
	}
	e.NonTrivial(most > 60)
}

type longElem[K comparable] struct {
	K    K
	Text string
	N    *int
}

func longUniq[K comparable](e *fw.Env, c longCase, of func(int) K) {
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		b := collections.NewStructUniqSet[longElem[K]]().WithContext(ctx)
		s := b.Build()
		elem := func(k int) longElem[K] { return longElem[K]{of(k), fmt.Sprint(k % 3), &k} }
		m := map[int]bool{}
		w := c.walk()
		most := 0
		for w.i < c.N {
			op, k := w.next()
			when := fmt.Sprintf("step %d %s %v of %d elements", w.i, op, of(k), len(m))
			var got, want bool
			var err error
			switch op {
			case "in":
				want = !m[k]
				got, err = s.Add(elem(k))
				m[k] = true
			case "out":
				want = m[k]
				got, err = s.Remove(elem(k))
				delete(m, k)
			default:
				want = m[k]
				got, err = s.Has(elem(k))
			}
			if err != nil || got != want {
				e.Fail("%s = %v, %v", when, got, err)
			}
			most = max(most, len(m))
			if got := s.Count(); got != len(m) {
				e.Fail("after %s: Count = %d, there are %d", when, got, len(m))
			}
			if w.i == c.N {
				for i := 0; i < c.Top; i++ {
					if got, err := s.Has(elem(i)); err != nil || got != m[i] {
						e.Fail("after %s: Has(%v) = %v, %v", when, of(i), got, err)
					}
				}
			}
		}
		e.NonTrivial(most > 60)
	})
}

// longTTL: elements come and go one after the other, in virtual time.
func longTTL(e *fw.Env, c longCase) {
	e.LeakIsViolation = true
	ms := time.Millisecond
	ttl, iv := 50+c.Route*100, 1+c.Wave/40
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(time.Duration(ttl) * ms).WithCheckInterval(time.Duration(iv) * ms).Build()
		start := time.Now()
		born := map[int]int{}
		w := c.walk()
		expired := 0
		for w.i < c.N {
			op, k := w.next()
			if d := w.r.IntN(6) - 3; d > 0 {
				fw.Sleep(time.Duration(d) * ms)
			}
			if w.r.IntN(500) == 0 {
				fw.Sleep(time.Duration(w.r.IntN(2*(ttl+iv))) * ms)
			}
			now := int(time.Since(start) / ms)
			t0, known := born[k]
			sure := known && now < t0+ttl
			gone := !known || now > t0+ttl+iv
			var there bool
			var err error
			switch op {
			case "in":
				there, err = s.Add(k)
				there = !there
			case "out":
				there, err = s.Remove(k)
			default:
				there, err = s.Has(k)
			}
			if err != nil || sure && !there || gone && there {
				e.Fail("step %d at %d ms: %s of element %d finds it there: %v, %v; added at %d ms (known: %v), lives %d ms, checked every %d ms", w.i, now, op, k, there, err, t0, known, ttl, iv)
			}
			if known && gone {
				expired++
			}
			switch {
			case op == "in" && !there:
				born[k] = now
			case op == "out" || !there:
				delete(born, k)
			}
			if w.due() {
				lo, hi := 0, 0
				for _, t0 := range born {
					if now < t0+ttl {
						lo++
					}
					if now <= t0+ttl+iv {
						hi++
					}
				}
				if got := s.Count(); got < lo || got > hi {
					e.Fail("step %d at %d ms: Count = %d; %d elements are younger than %d ms and %d more may still be there", w.i, now, got, lo, ttl, hi-lo)
				}
			}
		}
		fw.Sleep(time.Duration(ttl+iv+1) * ms)
		if got := s.Count(); got != 0 {
			e.Fail("Count = %d long after the last Add", got)
		}
		e.NonTrivial(expired > 20)
	})
}

func init() {
	runs := []fw.Run{fw.Plain(40)}
	fw.Add("C23", "long", "more than 60 elements were there at once", genLong(false), longBy(longSet[int], longSet[string], longSet[float64], longSet[structKey], longSet[any]), runs)
	fw.Add("C24", "long", "more than 60 elements were there at once, or more than 50 were evicted", genLong(true), longBy(longHash[int], longHash[string], longHash[float64], longHash[structKey], longHash[any]), runs)
	fw.Add("C26", "long", "more than 60 entries were there at once", genLong(false), longBy(longTwo[int], longTwo[string], longTwo[float64], longTwo[structKey], longTwo[any]), runs)
	fw.Add("C30", "long", "more than 60 entries were there at once", genLong(false), longBy(longKV[int], longKV[string], longKV[float64], longKV[structKey], longKV[any]), runs)
	fw.Add("C50", "long", "more than 60 elements were there at once", func(t *rapid.T) longCase {
		c := genLong(false)(t)
		c.N = min(c.N, 2500) // encoding takes its time
		if c.Keys == "any" {
			c.Keys = "int" // types must be registered
		}
		c.Top = min(c.Top, 1500)
		return c
	}, longBy(longUniq[int], longUniq[string], longUniq[float64], longUniq[structKey], longUniq[any]), runs)
	fw.Add("C51", "long", "more than 20 elements expired", genLong(false), longTTL, runs)
}
