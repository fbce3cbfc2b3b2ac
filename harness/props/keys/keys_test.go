package keys

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// C61: what a key or a value is does not matter. One history is played with
// small integers, and with keys and values of another type that are easily
// taken for each other; what is observed must agree but for the names.

type kOp struct {
	Op int `json:"op"`
	K  int `json:"k,omitempty"`
	V  int `json:"v,omitempty"`
	D  int `json:"d,omitempty"` // ticks to wait before
}
type kCase struct {
	Kind  string `json:"kind"`
	Type  string `json:"type"`
	Keys  []int  `json:"keys"` // which of the type's keys
	Vals  []int  `json:"vals"` // and values
	N     int    `json:"n"`    // maximum count, number of shards
	T     int    `json:"t"`    // a time, in ticks
	U     int    `json:"u"`
	Fn    bool   `json:"fn,omitempty"`
	Ops   []kOp  `json:"ops"`
	Twice bool   `json:"twice,omitempty"` // a wait is for two at once
}

const tick = 10 * time.Millisecond

func ticks(n int) time.Duration { return time.Duration(n) * tick }

type pair struct{ A, B string }
type number struct {
	N int32
	F float32
}
type inner struct {
	P *int
	S any
}
type name string
type text string

var nums = [4]int{7, 7, 7, 8}
var chs = [3]chan int{make(chan int), make(chan int), nil}
var now = time.Unix(1700000000, 5)

// pools hold what is easily taken for something else. The members of a pool
// are not equal to each other.
var long = strings.Repeat("a long name of something ", 40)

func anys() []any {
	return []any{1, "1", int64(1), int8(1), name("1"), 1.0, float32(1), uint8(1), int32(1), true, "true", nil, "<nil>", "", 0, false, 0.0, pair{"1", ""}, pair{"", "1"}, [1]int{1}, [1]any{1}, [1]any{int64(1)},
		text("1"), struct{}{}, &nums[0], &nums[1], chs[0], complex(1, 0), 'a', "a", (*int)(nil), (chan int)(nil), error(nil), io.EOF, [0]int{}, "{}", "[1]"}
}

func ints() []int {
	return []int{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 32, 1<<32 + 1, 1 << 31, -1 << 31, 1 << 16, 1<<16 + 1, 256, 257, 10, 100, 1000, -256, 1 << 62, -1 << 62, 16, 17, 1 << 53, 1<<53 + 1}
}

func strs() []string {
	return []string{"", "a", "A", "a\x00", "\x00", "\x00a", " a", "a ", "é", "e\u0301", "\xff", "\xfe", "\ufffd", "1", "01", "1.0", "ab", "ba", "a:b", "a", long + "1", long + "2", "1" + long, "2" + long, long, "%s", "%d", "a/b", "a//b", "nil"}[:]
}

func pairs() []pair {
	return []pair{{"", ""}, {"a", "bc"}, {"ab", "c"}, {"abc", ""}, {"", "abc"}, {"a b", "c"}, {"a", "b c"}, {"c", "ab"}, {"a", "b"}, {"b", "a"}, {"a\x00", "b"}, {"a", "\x00b"}, {long, "1"}, {long, "2"}, {"1", long}}
}

func floats() []float64 {
	return []float64{0, 1, 0.1, math.Nextafter(0.1, 1), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, -1, 1.5, 1.25, 1e300, 1 << 53, 1<<53 + 2, -0.5, 0.5}
}

func times() []time.Time {
	z := time.FixedZone("Z", 3600)
	return []time.Time{{}, now, now.UTC(), now.In(z), now.Add(1), now.Add(time.Hour), now.Add(-time.Hour), now.AddDate(100, 0, 0), time.Unix(0, 0)}
}

// words are the keys and values of one run.
type words[K comparable] struct {
	keys, vals []K
	names      []string // of the values: the zero value is called "zero" in both runs
	fresh      func(K) K
}

func (w words[K]) key(i int) K { return w.fresh(w.keys[i%len(w.keys)]) }
func (w words[K]) val(i int) K { return w.fresh(w.vals[i%len(w.vals)]) }

func (w words[K]) keyName(k K) string {
	for i, x := range w.keys {
		if x == k {
			return fmt.Sprintf("k%d", i)
		}
	}
	return fmt.Sprintf("a key never used, %.60v", k)
}

func (w words[K]) valName(v K) string {
	for i, x := range w.vals {
		if x == v {
			return w.names[i]
		}
	}
	var zero K
	if v == zero {
		return "zero"
	}
	return fmt.Sprintf("a value never used, %.60v", v)
}

func choose[K comparable](pool []K, which []int) (res []K) {
	for _, i := range which {
		x := pool[i%len(pool)]
		used := false
		for _, y := range res {
			used = used || x == y
		}
		if !used {
			res = append(res, x)
		}
	}
	return res
}

type lab struct {
	e     *fw.Env
	c     kCase
	start time.Time
	mu    sync.Mutex
	log   []string
	wg    sync.WaitGroup
	seen  int
}

func (l *lab) note(format string, a ...any) {
	l.mu.Lock()
	l.log = append(l.log, fmt.Sprintf("%07d ", time.Since(l.start)/time.Microsecond)+fmt.Sprintf(format, a...))
	l.mu.Unlock()
}

func (l *lab) go_(f func()) {
	l.wg.Add(1)
	go func() {
		defer l.wg.Done()
		f()
	}()
}

var given = errors.New("given")

func errName(err error) string {
	switch {
	case err == nil:
		return "no error"
	case errors.Is(err, given):
		return "the error given"
	}
	return err.Error()
}

// plain is what the maps have in common.
type plain[K comparable] interface {
	Get(K) (K, bool)
	Has(K) bool
	Set(K, K)
	SetIfNotExists(K, K) bool
	SetIfNotExistsWithFunc(K, func() K) (K, bool)
	Delete(K)
	Size() int
}

// build makes the object of the case; the operation it returns notes what it sees.
func build[K comparable](l *lab, w words[K], ctx context.Context) func(o kOp) {
	c := l.c
	list := func(ks []K) []string {
		res := []string{}
		for _, k := range ks {
			res = append(res, w.keyName(k))
		}
		sort.Strings(res)
		return res
	}
	index := func(k K) int {
		for i, x := range w.keys {
			if x == k {
				return i
			}
		}
		return 0
	}
	switch c.Kind {
	case "simple", "shard":
		var m plain[K]
		if m = collections.NewSimpleMap[K, K](); c.Kind == "shard" {
			m = collections.NewShardMap[K, K]().WithShardsCount(c.N).WithShardsFunc(func(k K) int { return index(k) * c.T % c.N }).Build()
		}
		return func(o kOp) {
			k, v := w.key(o.K), w.val(o.V)
			switch o.Op {
			case 0, 1, 2:
				m.Set(k, v)
			case 3:
				l.note("SetIfNotExists %v", m.SetIfNotExists(k, v))
			case 4:
				x, ok := m.SetIfNotExistsWithFunc(k, func() K { l.note("called"); return v })
				l.note("SetIfNotExistsWithFunc %s %v", w.valName(x), ok)
			case 5:
				m.Delete(k)
			default:
				x, ok := m.Get(k)
				l.note("Get k%d: %s %v, has %v, size %d", o.K, w.valName(x), ok, m.Has(k), m.Size())
			}
		}
	case "twokey":
		m := collections.NewTwoKeyMap[K, K, K]()
		return func(o kOp) {
			k, v := w.key(o.K), w.val(o.V)
			k2 := w.key(o.K*c.T + o.V)
			switch o.Op {
			case 0, 1, 2:
				m.Put(k, k2, v)
			case 3:
				m.Remove(k)
			case 4:
				m.RemoveByK2(k2)
			default:
				x, ok := m.Get(k)
				y, ok2 := m.GetByK2(k2)
				l.note("%s %v, %s %v; %v %v %d", w.valName(x), ok, w.valName(y), ok2, list(m.Keys()), list(m.KeysK2()), m.Len())
			}
		}
	case "set":
		m := collections.NewSet(w.key(c.T), w.key(c.U))
		return func(o kOp) {
			k := w.key(o.K)
			switch o.Op {
			case 0, 1:
				m.Add(k)
			case 2:
				m.AddAll(k, w.key(o.V))
			case 3, 4:
				m.Remove(k)
			case 5:
				x := m.Clone()
				x.Add(k)
				l.note("equals %v", x.Equals(m))
			default:
				l.note("has %v, all %v, any %v; %v %d", m.Has(k), m.HasAll(k, w.key(o.V)), m.HasAny(k, w.key(o.V)), list(m.Values()), m.Size())
			}
		}
	case "hashset":
		b := collections.NewHashSet[K]()
		if c.Fn {
			b = b.WithMaxCount(c.N)
		}
		m := b.Build()
		return func(o kOp) {
			k := w.key(o.K)
			switch o.Op {
			case 0, 1, 2:
				m.Add(k)
			case 3, 4:
				l.note("HasOrCreate %v", m.HasOrCreate(k))
			case 5:
				m.Delete(k)
			default:
				l.note("has %v; %v %d", m.Has(k), list(m.Keys()), m.Count())
			}
		}
	case "guava":
		b := collections.NewGuavaMap[K, K]().WithContext(ctx).WithUnloadFunc(func(k, v K) { l.note("unload %s %s", w.keyName(k), w.valName(v)) })
		if c.N < 5 {
			b = b.WithMaxCount(c.N)
		}
		switch c.U % 3 {
		case 0:
			b = b.WithReadTimeout(ticks(c.T) + 1)
		case 1:
			b = b.WithWriteTimeout(ticks(c.T) + 1)
		}
		if c.Fn {
			b = b.WithLockLoad(c.T%2 == 0).WithLoadFunc(func(k K) (K, error) {
				l.note("load %s", w.keyName(k))
				var zero K
				if index(k) == 1 {
					return zero, given
				}
				return w.val(index(k)), nil
			})
		}
		m := b.Build()
		return func(o kOp) {
			k, v := w.key(o.K), w.val(o.V)
			switch o.Op {
			case 0, 1, 2:
				m.Set(k, v)
			case 3:
				l.note("HasOrCreate %v", m.HasOrCreate(k, v))
			case 4:
				m.Delete(k)
			case 5:
				x := m.LockForUpdate(k, func() K { return v })
				l.note("LockForUpdate %s", w.valName(x))
			case 6, 7:
				x, err := m.Get(k)
				l.note("Get k%d: %s %s", o.K, w.valName(x), errName(err))
			default:
				res := []string{}
				for k, v := range m.GetStored() {
					res = append(res, w.keyName(k)+" "+w.valName(v))
				}
				sort.Strings(res)
				l.note("%v, size %d, has %v", res, m.Size(), m.Has(k))
			}
		}
	case "request":
		m := collections.NewRequestMap[K, K](ctx, ticks(5*c.T), &collections.RequestMapInitializer[K, K]{Key: w.key(c.T), Result: w.val(c.U)})
		return func(o kOp) {
			for range map[bool]int{false: 1, true: 2}[c.Twice] {
				l.go_(func() {
					f := func(k K) (K, error) {
						l.note("called for %s", w.keyName(k))
						time.Sleep(ticks(o.V%4) + 7*time.Microsecond)
						if o.Op == 3 {
							return w.val(o.V), given
						}
						return w.val(o.V), nil
					}
					if o.Op < 4 {
						x, err := m.GetOrCreateWithErr(w.key(o.K), f)
						l.note("k%d: %s %s", o.K, w.valName(x), errName(err))
					} else if o.Op < 6 {
						x := m.GetOrCreate(w.key(o.K), func(k K) K { v, _ := f(k); return v })
						l.note("k%d: %s", o.K, w.valName(x))
					} else {
						l.note("count %d", m.Count())
					}
				})
			}
		}
	case "response":
		m := collections.NewResponseMap[K, K](ctx).WithResponseTimeout(ticks(c.T) + 1).WithClearTimeout(ticks(c.T+c.U) + 3).Build()
		return func(o kOp) {
			if o.Op < 4 {
				m.Set(w.key(o.K), w.val(o.V))
				return
			}
			l.go_(func() { l.note("wait for k%d: %s", o.K, w.valName(m.Wait(w.key(o.K)))) })
		}
	case "wait":
		m := collections.NewWaitMap[K, K]().WithContext(ctx).WithRequestTimeout(ticks(c.T) + 1).WithResponseTtl(ticks(c.U) + 3).Build()
		return func(o kOp) {
			switch {
			case o.Op < 4:
				m.Set(w.key(o.K), w.val(o.V))
			case o.Op < 9:
				l.go_(func() { l.note("wait for k%d: %s", o.K, w.valName(m.Wait(w.key(o.K)))) })
			default:
				l.note("count %d", m.Count())
			}
		}
	default: // holder
		m := collections.NewHolderMap[K, K]().WithContext(ctx).WithTimeout(ticks(c.T) + 1).WithTTL(ticks(c.U) + 3).Build()
		return func(o kOp) {
			k := w.key(o.K)
			switch {
			case o.Op == 0:
				l.note("release k%d: %s", o.K, errName(m.Release(k)))
			case o.Op == 1:
				l.note("error k%d: %s", o.K, errName(m.Error(k, given)))
			case o.Op == 2:
				l.note("update k%d: %s", o.K, errName(m.Update(k, w.val(o.V))))
			case o.Op < 5:
				x, err := m.Get(k)
				l.note("get k%d: %s %s, count %d", o.K, w.valName(x), errName(err), m.Count())
			default:
				l.go_(func() { l.note("wait for k%d: %s", o.K, errName(m.Wait(w.key(o.K), w.val(o.V)))) })
			}
		}
	}
}

func play[K comparable](e *fw.Env, c kCase, w words[K]) []string {
	l := &lab{e: e, c: c}
	e.Bubble(func() {
		l.start = time.Now()
		ctx, end := context.WithCancel(context.Background())
		defer func() {
			end()
			l.wg.Wait()
			fw.Sleep(ticks(3)) // for goroutines that look at the context now and then
		}()
		op := build(l, w, ctx)
		fw.Settle()
		fw.Sleep(time.Millisecond)
		for _, o := range c.Ops {
			fw.Sleep(ticks(o.D) + 100*time.Microsecond)
			o.K %= len(w.keys)
			o.V %= len(w.vals)
			op(o)
			fw.Settle()
		}
		fw.Sleep(ticks(40))
	})
	sort.SliceStable(l.log, func(i, j int) bool { return l.log[i] < l.log[j] })
	return l.log
}

// both plays the case with the keys and values chosen from the pool, and with numbers.
func both[K comparable](e *fw.Env, c kCase, pool []K, fresh func(K) K) {
	w := words[K]{keys: choose(pool, c.Keys), vals: choose(pool, c.Vals), fresh: fresh}
	ref := words[int]{fresh: func(i int) int { return i }}
	var zero K
	for i := range w.keys {
		ref.keys = append(ref.keys, i+1)
	}
	for i, v := range w.vals {
		ref.vals = append(ref.vals, i+1)
		w.names = append(w.names, fmt.Sprintf("v%d", i))
		if v == zero {
			w.names[i] = "zero"
		}
	}
	ref.names = w.names
	want := play(e, c, ref)
	if e.Failed() {
		return
	}
	got := play(e, c, w)
	if e.Failed() {
		return
	}
	e.Label(c.Kind)
	e.Label(c.Type)
	e.NonTrivial(len(w.keys) > 1 && len(want) > 0)
	for i := range max(len(got), len(want)) {
		g, x := "nothing more", "nothing more"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			x = want[i]
		}
		if g != x {
			e.Fail("%s with keys %.60q of type %T: observation %d is %q, want %q as with numbers", c.Kind, fmt.Sprint(w.keys), w.keys, i, g, x)
		}
	}
}

func same[K comparable](k K) K { return k }

func freshAny(k any) any {
	switch x := k.(type) {
	case string:
		return strings.Clone(x)
	case pair:
		return pair{strings.Clone(x.A), strings.Clone(x.B)}
	}
	return k
}

func run(e *fw.Env, c kCase) {
	e.LeakIsViolation = true
	switch c.Type {
	case "int":
		both(e, c, ints(), same)
	case "string":
		both(e, c, strs(), strings.Clone)
	case "pair":
		both(e, c, pairs(), func(p pair) pair { return pair{strings.Clone(p.A), strings.Clone(p.B)} })
	case "any":
		both(e, c, anys(), freshAny)
	case "float":
		both(e, c, floats(), same)
	case "negative zero": // is equal to zero, and so the same key
		var n atomic.Int32
		both(e, c, floats(), func(f float64) float64 {
			if f == 0 {
				return math.Copysign(0, float64(n.Add(1)%2)-0.5)
			}
			return f
		})
	case "pointer":
		both(e, c, []*int{&nums[0], &nums[1], &nums[2], &nums[3], nil}, same)
	case "bool":
		both(e, c, []bool{false, true}, same)
	case "int8":
		both(e, c, []int8{0, 1, -1, 127, -128, 2, 64}, same)
	case "uint64":
		both(e, c, []uint64{0, 1, math.MaxUint64, 1 << 63, 1 << 32, 1<<32 + 1, math.MaxUint32, math.MaxUint64 - 1}, same)
	case "array":
		both(e, c, [][3]uint16{{}, {1, 2, 3}, {3, 2, 1}, {1, 23}, {12, 3}, {0, 0, 1}, {1, 0, 0}, {0, 1, 0}}, same)
	case "struct":
		both(e, c, []number{{}, {1, 0}, {0, 1}, {1, 1}, {-1, 1}, {10, 1}, {1, 10}, {1, 0.5}}, same)
	case "inner":
		both(e, c, []inner{{}, {&nums[0], nil}, {&nums[1], nil}, {&nums[0], 7}, {&nums[0], int64(7)}, {&nums[0], "7"}, {nil, 7}, {nil, &nums[0]}, {nil, &nums[1]}}, same)
	case "chan":
		both(e, c, chs[:], same)
	case "error":
		both(e, c, []error{nil, io.EOF, errors.New("EOF"), errors.New("EOF"), fmt.Errorf("%w", io.EOF), context.Canceled, given, errors.New("not found")}, same)
	case "time":
		both(e, c, times(), same)
	case "empty":
		both(e, c, []struct{}{{}}, same)
	default:
		both(e, c, []name{"", "a", "b", "A", "ab", "a b", "0", "1"}, func(n name) name { return name(strings.Clone(string(n))) })
	}
}

var kinds = []string{"simple", "shard", "twokey", "set", "hashset", "guava", "guava", "guava", "request", "request", "response", "response", "wait", "wait", "holder", "holder"}
var types = []string{"int", "int", "string", "string", "pair", "pair", "any", "any", "any", "float", "negative zero", "pointer", "bool", "int8", "uint64", "array", "struct", "inner", "chan", "error", "time", "empty", "name"}

func gen(t *rapid.T) kCase {
	c := kCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Type: rapid.SampledFrom(types).Draw(t, "type"), N: rapid.IntRange(1, 6).Draw(t, "n"),
		T: rapid.SampledFrom([]int{2, 3, 5, 9}).Draw(t, "t"), U: rapid.SampledFrom([]int{2, 4, 7, 6, 1}).Draw(t, "u"), Fn: rapid.Bool().Draw(t, "fn"), Twice: fw.Pct(t, "twice", 30)}
	from, to := 0, 39
	if fw.Pct(t, "near", 70) { // what is easily confused lies together
		from = rapid.IntRange(0, 33).Draw(t, "from")
		to = from + 7
	}
	c.Keys = rapid.SliceOfN(rapid.IntRange(from, to), 2, 6).Draw(t, "keys")
	c.Vals = rapid.SliceOfN(rapid.IntRange(0, 39), 1, 5).Draw(t, "vals")
	c.Ops = fw.Ops(t, "ops", 1, 50, rapid.Custom(func(t *rapid.T) kOp {
		return kOp{Op: rapid.IntRange(0, 9).Draw(t, "op"), K: rapid.IntRange(0, 5).Draw(t, "k"), V: rapid.IntRange(0, 4).Draw(t, "v"), D: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 5}).Draw(t, "d")}
	}))
	return c
}

func init() {
	fw.Add("C61", "kinds", "several keys, and something was observed", gen, run, []fw.Run{fw.Plain(60000), fw.Race(3000)})
}
