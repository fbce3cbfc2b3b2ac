package maps

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// Keys of a case are small integers; kinds of key types are instances of these.
type structKey struct {
	A int
	B string
}

func strKey(i int) string {
	if i == 0 {
		return ""
	}
	return strings.Repeat("k", i%3) + fmt.Sprint(i)
}
func stKey(i int) structKey { return structKey{i / 2, []string{"", "x"}[i%2]} }
func intKey(i int) int {
	return []int{0, 1, -1, 2, 1 << 40, -1 << 62, 7, 8, 9, 10, 11, 12}[i%12] + i/12*1000
}

func floatKey(i int) float64 {
	special := []float64{0, math.Inf(1), math.Inf(-1), 0.5, -0.5, math.SmallestNonzeroFloat64, math.MaxFloat64, 1 << 60}
	if i < len(special) {
		return special[i]
	}
	return float64(i) * 1.25
}
func anyKey(i int) any {
	switch i % 4 {
	case 0:
		return i
	case 1:
		return int64(i - 1) // not the same as the int
	case 2:
		return fmt.Sprint(i - 2)
	}
	if i == 3 {
		return nil
	}
	return structKey{A: i}
}

// nan returns a key that is not equal to itself, when the type has one.
func nan[K comparable]() (k K, ok bool) {
	if p, is := any(&k).(*float64); is {
		*p = math.NaN()
		return k, true
	}
	return k, false
}

func drawKeyKind(t *rapid.T) string {
	return rapid.SampledFrom([]string{"int", "string", "struct", "float", "any"}).Draw(t, "keys")
}

// codec maps the case's small integers to keys and back.
type codec[K comparable] struct {
	of   func(int) K
	back map[K]int
}

func newCodec[K comparable](of func(int) K) codec[K] {
	c := codec[K]{of, map[K]int{}}
	for i := 0; i < 64; i++ {
		if j, dup := c.back[of(i)]; dup {
			panic(fmt.Sprintf("keys %d and %d are equal", i, j))
		}
		c.back[of(i)] = i
	}
	return c
}

func (c codec[K]) all(ks []int) []K {
	out := make([]K, 0, len(ks))
	for _, k := range ks {
		out = append(out, c.of(k))
	}
	return out
}

// ints turns a key list of the code under test back into sorted small integers.
func (c codec[K]) ints(e *fw.Env, what string, ks []K) []int {
	out := make([]int, 0, len(ks))
	for _, k := range ks {
		i, ok := c.back[k]
		if !ok {
			e.Fail("%s lists %v, which nobody put there", what, k)
		}
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

func sortedKeys[V any](m map[int]V) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// ---------------------------------------------------------------- C23 Set

type setOp struct {
	Op string `json:"op"`
	S  int    `json:"s"`
	O  int    `json:"o,omitempty"`
	Ks []int  `json:"ks,omitempty"`
}
type setCase struct {
	Keys string  `json:"keys"`
	Init [][]int `json:"init"`
	Ops  []setOp `json:"ops"`
}

func genSet(t *rapid.T) setCase {
	top := rapid.SampledFrom([]int{2, 5, 11, 40}).Draw(t, "top")
	key := rapid.IntRange(0, top)
	op := rapid.Custom(func(t *rapid.T) setOp {
		o := setOp{
			Op: rapid.SampledFrom([]string{"add", "add", "addall", "remove", "remove", "has", "hasall", "hasany", "values", "all", "equals", "clone", "size", "clear"}).Draw(t, "op"),
			S:  rapid.IntRange(0, 2).Draw(t, "s"),
		}
		switch o.Op {
		case "add", "remove", "has":
			o.Ks = []int{key.Draw(t, "k")}
		case "addall", "hasall", "hasany":
			o.Ks = rapid.SliceOfN(key, 0, 6).Draw(t, "ks")
		case "equals", "clone":
			o.O = rapid.IntRange(0, 2).Draw(t, "o")
		}
		return o
	})
	c := setCase{Keys: drawKeyKind(t)}
	for i := 0; i < 3; i++ {
		c.Init = append(c.Init, rapid.SliceOfN(key, 0, 8).Draw(t, "init"))
	}
	c.Ops = fw.Ops(t, "ops", 1, 80, op)
	return c
}

func runSet(e *fw.Env, c setCase) {
	switch c.Keys {
	case "int":
		runSetK(e, c, newCodec(intKey))
	case "string":
		runSetK(e, c, newCodec(strKey))
	case "float":
		runSetK(e, c, newCodec(floatKey))
	case "any":
		runSetK(e, c, newCodec(anyKey))
	default:
		runSetK(e, c, newCodec(stKey))
	}
}

func runSetK[K comparable](e *fw.Env, c setCase, kc codec[K]) {
	type pair struct {
		s *collections.Set[K]
		m map[int]bool
	}
	var ps [3]*pair
	for i := range ps {
		args := kc.all(c.Init[i])
		ps[i] = &pair{collections.NewSet(args...), map[int]bool{}}
		for j := range args {
			args[j] = kc.of(60) // the set must not live in the caller's slice
		}
		for _, k := range c.Init[i] {
			ps[i].m[k] = true
		}
	}
	removed := false
	check := func(i int, when string) {
		p := ps[i]
		if got := p.s.Size(); got != len(p.m) {
			e.Fail("%s: set %d has size %d, %d members were put there", when, i, got, len(p.m))
		}
		if got, want := kc.ints(e, when, p.s.Values()), sortedKeys(p.m); !slices.Equal(got, want) {
			e.Fail("%s: set %d lists %v, its members are %v", when, i, got, want)
		}
	}
	for n, o := range c.Ops {
		p := ps[o.S]
		when := fmt.Sprintf("op %d %+v", n, o)
		ks := kc.all(o.Ks)
		switch o.Op {
		case "add":
			p.s.Add(ks[0])
			p.m[o.Ks[0]] = true
		case "addall":
			p.s.AddAll(ks...)
			for _, k := range o.Ks {
				p.m[k] = true
			}
		case "remove":
			removed = removed || p.m[o.Ks[0]]
			p.s.Remove(ks[0])
			delete(p.m, o.Ks[0])
		case "has":
			if got := p.s.Has(ks[0]); got != p.m[o.Ks[0]] {
				e.Fail("%s: Has = %v", when, got)
			}
		case "hasall", "hasany":
			all, any := true, false
			for _, k := range o.Ks {
				all = all && p.m[k]
				any = any || p.m[k]
			}
			if o.Op == "hasall" {
				if got := p.s.HasAll(ks...); got != all {
					e.Fail("%s: HasAll = %v in %v", when, got, sortedKeys(p.m))
				}
			} else if got := p.s.HasAny(ks...); got != any {
				e.Fail("%s: HasAny = %v in %v", when, got, sortedKeys(p.m))
			}
		case "values", "all":
			vs := p.s.Values()
			if o.Op == "all" {
				vs = p.s.All()
			}
			if got, want := kc.ints(e, when, vs), sortedKeys(p.m); !slices.Equal(got, want) {
				e.Fail("%s: lists %v, members are %v", when, got, want)
			}
			for i := range vs {
				vs[i] = kc.of(61) // the caller's copy
			}
		case "equals":
			q := ps[o.O]
			want := slices.Equal(sortedKeys(p.m), sortedKeys(q.m))
			if got := p.s.Equals(q.s); got != want {
				e.Fail("%s: Equals = %v for %v and %v", when, got, sortedKeys(p.m), sortedKeys(q.m))
			}
			if want && o.S != o.O {
				e.Label("two equal sets compared")
			}
		case "clone":
			q := &pair{p.s.Clone(), map[int]bool{}}
			for k := range p.m {
				q.m[k] = true
			}
			if !q.s.Equals(p.s) || !p.s.Equals(q.s) {
				e.Fail("%s: the clone does not equal its origin", when)
			}
			ps[o.O] = q
			e.Label("clone")
		case "size":
		case "clear":
			if x, ok := nan[K](); ok {
				p.s.Add(x)
				p.s.AddAll(x, x)
			}
			p.s.Clear()
			clear(p.m)
		}
		for i := range ps {
			check(i, when)
		}
	}
	for i := range ps {
		for k := 0; k < 64; k++ {
			if got := ps[i].s.Has(kc.of(k)); got != ps[i].m[k] {
				e.Fail("at the end: set %d Has(%v) = %v", i, kc.of(k), got)
			}
		}
	}
	e.NonTrivial(removed)
}

// ------------------------------------------------------- C24, C25 HashSet

type hsOp struct {
	Op string `json:"op"`
	K  int    `json:"k"`
}

func (o hsOp) String() string { return fmt.Sprintf("%s %d", o.Op, o.K) }

type hsCase struct {
	Keys string   `json:"keys"`
	Max  int      `json:"max"`
	Ops  []hsOp   `json:"ops,omitempty"`
	Thr  [][]hsOp `json:"thr,omitempty"`
}

func hsOpGen(top int) *rapid.Generator[hsOp] {
	return rapid.Custom(func(t *rapid.T) hsOp {
		o := hsOp{Op: rapid.SampledFrom([]string{"add", "add", "add", "create", "create", "has", "delete", "count", "keys", "clear"}).Draw(t, "op")}
		if o.Op == "clear" && rapid.IntRange(0, 2).Draw(t, "really") > 0 {
			o.Op = "add"
		}
		if o.Op != "count" && o.Op != "keys" && o.Op != "clear" {
			o.K = rapid.IntRange(0, top).Draw(t, "k")
		}
		return o
	})
}

func genHS(t *rapid.T) hsCase {
	c := hsCase{Keys: drawKeyKind(t), Max: rapid.SampledFrom([]int{0, 1, 2, 3, 5, 16}).Draw(t, "max")}
	top := rapid.SampledFrom([]int{2, 4, 8, 40}).Draw(t, "top")
	c.Ops = fw.Ops(t, "ops", 1, 120, hsOpGen(top))
	return c
}

// hsStep is the model: the members in the order they came in, one byte each.
func hsStep(max int) func(string, hsOp, any) (bool, string) {
	return func(st string, o hsOp, out any) (bool, string) {
		k := string(rune('A' + o.K))
		has := strings.Contains(st, k)
		add := func() string {
			if has {
				return st
			}
			n := st + k
			if max > 0 && len(n) > max {
				n = n[1:]
			}
			return n
		}
		switch o.Op {
		case "add":
			return true, add()
		case "create":
			return out == has, add()
		case "has":
			return out == has, st
		case "delete":
			return true, strings.Replace(st, k, "", 1)
		case "count":
			return out == len(st), st
		case "keys":
			b := []byte(st)
			slices.Sort(b)
			return out == string(b), st
		case "clear":
			return true, ""
		}
		panic("op " + o.Op)
	}
}

func hsExec[K comparable](e *fw.Env, s *collections.HashSet[K], kc codec[K], o hsOp) any {
	switch o.Op {
	case "add":
		s.Add(kc.of(o.K))
	case "create":
		return s.HasOrCreate(kc.of(o.K))
	case "has":
		return s.Has(kc.of(o.K))
	case "delete":
		s.Delete(kc.of(o.K))
	case "count":
		return s.Count()
	case "keys":
		b := []byte{}
		for _, k := range s.Keys() {
			i, ok := kc.back[k]
			if !ok {
				return fmt.Sprintf("unknown key %v", k)
			}
			b = append(b, byte('A'+i))
		}
		slices.Sort(b)
		return string(b)
	case "clear":
		s.Clear()
	}
	return nil
}

func runHS(e *fw.Env, c hsCase) {
	switch c.Keys {
	case "int":
		runHSK(e, c, newCodec(intKey))
	case "string":
		runHSK(e, c, newCodec(strKey))
	case "float":
		runHSK(e, c, newCodec(floatKey))
	case "any":
		runHSK(e, c, newCodec(anyKey))
	default:
		runHSK(e, c, newCodec(stKey))
	}
}

func buildHS[K comparable](max int) *collections.HashSet[K] {
	b := collections.NewHashSet[K]()
	if max > 0 {
		b = b.WithMaxCount(max)
	}
	return b.Build()
}

func runHSK[K comparable](e *fw.Env, c hsCase, kc codec[K]) {
	if c.Thr != nil {
		fw.Repeat(e, 3, func() {
			s := buildHS[K](c.Max)
			hist := fw.Threads(c.Thr, func(_ int, o hsOp) any { return hsExec(e, s, kc, o) })
			for _, o := range append([]hsOp{{"count", 0}, {"keys", 0}}, finalHas(c.Thr)...) {
				hist = append(hist, fw.Threads([][]hsOp{{o}}, func(_ int, o hsOp) any { return hsExec(e, s, kc, o) })...)
			}
			fw.Linearizable(e, "", hsStep(c.Max), nil, hist)
			e.NonTrivial(fw.Overlaps(hist) > 0)
		})
		return
	}
	s := buildHS[K](c.Max)
	other := buildHS[K](c.Max) // another set of the same builder kind stays empty
	step := hsStep(c.Max)
	st := ""
	evicted, again := false, false
	for n, o := range c.Ops {
		if (o.Op == "add" || o.Op == "create") && c.Max > 0 && len(st) == c.Max && !strings.Contains(st, string(rune('A'+o.K))) {
			evicted = true
		}
		again = again || o.Op == "add" && strings.Contains(st, string(rune('A'+o.K)))
		out := hsExec(e, s, kc, o)
		ok, nst := step(st, o, out)
		if !ok {
			e.Fail("op %d %v returned %v with members %q in order of arrival (A is key 0), max %d", n, o, out, st, c.Max)
		}
		st = nst
		for k := 0; k < 41; k++ {
			if got := s.Has(kc.of(k)); got != strings.Contains(st, string(rune('A'+k))) {
				e.Fail("after op %d %v: Has(%v) = %v with members %q in order of arrival (A is key 0), max %d", n, o, kc.of(k), got, st, c.Max)
			}
		}
		for _, q := range []hsOp{{"count", 0}, {"keys", 0}} {
			out := hsExec(e, s, kc, q)
			if ok, _ := step(st, q, out); !ok {
				e.Fail("after op %d %v: %s = %v with members %q (A is key 0), max %d", n, o, q.Op, out, st, c.Max)
			}
		}
	}
	if other.Count() != 0 {
		e.Fail("another set has %d members nobody added", other.Count())
	}
	e.LabelIf(evicted, "an element was evicted")
	e.LabelIf(again, "an existing element was added again")
	e.NonTrivial(evicted || c.Max == 0 && len(c.Ops) > 5)
}

func finalHas(thr [][]hsOp) []hsOp {
	var out []hsOp
	seen := map[int]bool{}
	for _, t := range thr {
		for _, o := range t {
			if !seen[o.K] {
				seen[o.K] = true
				out = append(out, hsOp{"has", o.K})
			}
		}
	}
	return out
}

func genHSConc(t *rapid.T) hsCase {
	c := hsCase{Keys: drawKeyKind(t), Max: rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "max")}
	top := rapid.SampledFrom([]int{0, 1, 2, 4}).Draw(t, "top")
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(hsOpGen(top), 1, 6), 2, 4).Draw(t, "thr")
	return c
}

func init() {
	fw.Add("C23", "histories", "a member was removed", genSet, runSet, []fw.Run{fw.Plain(4000)})
	fw.Add("C24", "histories", "an element was evicted, or more than 5 operations on an unbounded set", genHS, runHS, []fw.Run{fw.Plain(4000)})
	conc := []fw.Run{fw.Plain(1000), fw.Sched(1500), fw.Race(600)}
	fw.Add("C25", "linearizable", "operations of different goroutines overlapped", genHSConc, runHS, conc, fw.Reps(20))
}
