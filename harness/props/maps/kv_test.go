package maps

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"axverif/fw"

	"github.com/anishathalye/porcupine"
	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// ------------------------------------------- C30, C31 SimpleMap, ShardMap

type kvOp struct {
	Op string `json:"op"`
	K  int    `json:"k"`
	V  int    `json:"v,omitempty"`
}
type kvCase struct {
	Keys   string   `json:"keys"`
	Shards int      `json:"shards"` // 0: SimpleMap; -1: ShardMap with the default count
	Route  int      `json:"route"`  // how the shard function spreads keys
	Ops    []kvOp   `json:"ops,omitempty"`
	Thr    [][]kvOp `json:"thr,omitempty"`
}

func kvGen(top int, shard bool) *rapid.Generator[kvOp] {
	ops := []string{"get", "get", "set", "set", "delete", "has", "sine", "sinef", "size"}
	if shard {
		ops = append(ops, "clear")
	}
	return rapid.Custom(func(t *rapid.T) kvOp {
		o := kvOp{Op: rapid.SampledFrom(ops).Draw(t, "op")}
		if o.Op != "size" && o.Op != "clear" {
			o.K = rapid.IntRange(0, top).Draw(t, "k")
		}
		if o.Op == "set" || o.Op == "sine" || o.Op == "sinef" {
			o.V = rapid.IntRange(0, 9).Draw(t, "v")
		}
		return o
	})
}

func genKVBase(t *rapid.T) kvCase {
	return kvCase{
		Keys:   drawKeyKind(t),
		Shards: rapid.SampledFrom([]int{0, 0, -1, 1, 2, 3, 7, 32}).Draw(t, "shards"),
		Route:  rapid.IntRange(0, 2).Draw(t, "route"),
	}
}

func genKV(t *rapid.T) kvCase {
	c := genKVBase(t)
	c.Ops = fw.Ops(t, "ops", 1, 100, kvGen(rapid.SampledFrom([]int{1, 3, 8, 40}).Draw(t, "top"), c.Shards != 0))
	return c
}

func genKVConc(t *rapid.T) kvCase {
	c := genKVBase(t)
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(kvGen(rapid.SampledFrom([]int{0, 1, 2, 5}).Draw(t, "top"), c.Shards != 0), 1, 7), 2, 5).Draw(t, "thr")
	return c
}

type clearer interface{ Clear() }

func buildKV[K comparable](shards, route int, kc codec[K]) collections.Map[K, int] {
	if shards == 0 {
		return collections.NewSimpleMap[K, int]()
	}
	n := shards
	b := collections.NewShardMap[K, int]()
	if shards > 0 {
		b = b.WithShardsCount(shards)
	} else {
		n = 6
	}
	return b.WithShardsFunc(func(k K) int {
		i := kc.back[k]
		switch route {
		case 0:
			return i % n
		case 1:
			return n - 1
		}
		return (i * 7 % 13) % n
	}).Build()
}

func kvExec[K comparable](m collections.Map[K, int], kc codec[K], o kvOp) any {
	switch o.Op {
	case "get":
		v, ok := m.Get(kc.of(o.K))
		return vok{v, ok}
	case "set":
		m.Set(kc.of(o.K), o.V)
	case "delete":
		m.Delete(kc.of(o.K))
	case "has":
		return m.Has(kc.of(o.K))
	case "sine":
		return m.SetIfNotExists(kc.of(o.K), o.V)
	case "sinef":
		calls := 0
		v, ok := m.SetIfNotExistsWithFunc(kc.of(o.K), func() int {
			calls++
			runtime.Gosched()
			return o.V
		})
		if ok != (calls == 1) || calls > 1 {
			return fmt.Sprintf("returned (%d, %v) with %d calls of the function", v, ok, calls)
		}
		return vok{v, ok}
	case "size":
		return m.Size()
	case "clear":
		m.(clearer).Clear()
	}
	return nil
}

// The state holds one "k:v " pair per entry; bytes: key letter, value digit.
func kvStep(st string, o kvOp, out any) (bool, string) {
	k := string(rune('A' + o.K))
	i := -1
	for j := 0; j < len(st); j += 2 {
		if st[j:j+1] == k {
			i = j
		}
	}
	has := i >= 0
	v := 0
	if has {
		v = int(st[i+1] - '0')
	}
	set := func() string {
		e := k + string(rune('0'+o.V))
		if has {
			return st[:i] + e + st[i+2:]
		}
		// sorted, so that equal contents are equal states
		j := 0
		for j < len(st) && st[j] < k[0] {
			j += 2
		}
		return st[:j] + e + st[j:]
	}
	switch o.Op {
	case "get":
		return out == vok{v, has}, st
	case "set":
		return true, set()
	case "delete":
		if has {
			return true, st[:i] + st[i+2:]
		}
		return true, st
	case "has":
		return out == has, st
	case "sine":
		if has {
			return out == false, st
		}
		return out == true, set()
	case "sinef":
		if has {
			return out == vok{v, false}, st
		}
		return out == vok{o.V, true}, set()
	case "size":
		return out == len(st)/2, st
	case "clear":
		return true, ""
	}
	panic("op " + o.Op)
}

func runKV(e *fw.Env, c kvCase) {
	switch c.Keys {
	case "int":
		runKVK(e, c, newCodec(intKey))
	case "string":
		runKVK(e, c, newCodec(strKey))
	case "float":
		runKVK(e, c, newCodec(floatKey))
	case "any":
		runKVK(e, c, newCodec(anyKey))
	default:
		runKVK(e, c, newCodec(stKey))
	}
}

func runKVK[K comparable](e *fw.Env, c kvCase, kc codec[K]) {
	e.Label(map[bool]string{true: "SimpleMap", false: "ShardMap"}[c.Shards == 0])
	if c.Thr != nil {
		fw.Repeat(e, 3, func() {
			m := buildKV(c.Shards, c.Route, kc)
			ex := func(_ int, o kvOp) any { return kvExec(m, kc, o) }
			hist := fw.Threads(c.Thr, ex)
			e.NonTrivial(fw.Overlaps(hist) > 0)
			var fin []kvOp
			for k := 0; k <= 5; k++ {
				fin = append(fin, kvOp{Op: "get", K: k})
			}
			last := fw.Threads([][]kvOp{fin}, ex)
			n := 0
			for _, op := range last {
				if op.Output.(vok).OK {
					n++
				}
			}
			if got := m.Size(); got != n {
				e.Fail("at rest Size = %d and %d keys are there:\n%s", got, n, fw.HistString(hist))
			}
			hist = append(hist, last...)
			if c.Shards == 0 {
				fw.Linearizable(e, "", kvStep, nil, hist)
				return
			}
			// across shards Size and Clear work shard by shard: what holds is
			// that each key is cleared at some moment within the call
			var split []porcupine.Operation
			for _, op := range hist {
				switch op.Input.(kvOp).Op {
				case "size":
					if n := op.Output.(int); n < 0 || n > 6 {
						e.Fail("Size = %d with at most 6 keys:\n%s", n, fw.HistString(hist))
					}
				case "clear":
					for k := 0; k <= 5; k++ {
						p := op
						p.Input = kvOp{Op: "clear", K: k}
						split = append(split, p)
					}
				default:
					split = append(split, op)
				}
			}
			fw.Linearizable(e, "", kvStep, func(o kvOp) string { return fmt.Sprint(o.K) }, split)
		})
		return
	}
	m, other := buildKV(c.Shards, c.Route, kc), buildKV(c.Shards, c.Route, kc)
	st := ""
	over := false
	for n, o := range c.Ops {
		over = over || o.Op == "set" && strings.Contains(st, string(rune('A'+o.K)))
		out := kvExec(m, kc, o)
		ok, nst := kvStep(st, o, out)
		if !ok {
			e.Fail("op %d %+v returned %+v; content (key A.., value): %q", n, o, out, st)
		}
		st = nst
		for k := 0; k <= 42; k++ {
			for _, q := range []string{"get", "has"} {
				out := kvExec(m, kc, kvOp{Op: q, K: k})
				if ok, _ := kvStep(st, kvOp{Op: q, K: k}, out); !ok {
					e.Fail("after op %d %+v: %s of key %d = %+v; content (key A.., value): %q", n, o, q, k, out, st)
				}
			}
		}
		if got := m.Size(); got != len(st)/2 {
			e.Fail("after op %d %+v: Size = %d; content (key A.., value): %q", n, o, got, st)
		}
	}
	if other.Size() != 0 {
		e.Fail("another map has %d entries nobody put there", other.Size())
	}
	e.NonTrivial(over)
}

// C31: many goroutines race to create the same keys

type onceCase struct {
	Keys   string  `json:"keys"`
	Shards int     `json:"shards"`
	Route  int     `json:"route"`
	Thr    [][]int `json:"thr"`            // the keys each goroutine creates, in order; negative: SetIfNotExists(-k-1)
	Panic  []int   `json:"panic"`          // the function panics on its first n calls for key i
	Exit   bool    `json:"exit,omitempty"` // or ends its goroutine (runtime.Goexit)
}

func genOnce(t *rapid.T) onceCase {
	c := onceCase{
		Keys:   drawKeyKind(t),
		Shards: rapid.SampledFrom([]int{0, 0, -1, 1, 2, 3, 7}).Draw(t, "shards"),
		Route:  rapid.IntRange(0, 2).Draw(t, "route"),
	}
	top := rapid.SampledFrom([]int{0, 1, 3, 7}).Draw(t, "top")
	k := rapid.IntRange(0, top)
	if rapid.Bool().Draw(t, "mixed") {
		k = rapid.IntRange(-top-1, top)
	}
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(k, 1, 8), 2, 8).Draw(t, "thr")
	if fw.Pct(t, "panics", 25) {
		c.Panic = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 8).Draw(t, "panic")
		c.Exit = fw.Pct(t, "exit", 30)
	}
	return c
}

func runOnce(e *fw.Env, c onceCase) {
	switch c.Keys {
	case "int":
		runOnceK(e, c, newCodec(intKey))
	case "string":
		runOnceK(e, c, newCodec(strKey))
	case "float":
		runOnceK(e, c, newCodec(floatKey))
	case "any":
		runOnceK(e, c, newCodec(anyKey))
	default:
		runOnceK(e, c, newCodec(stKey))
	}
}

func runOnceK[K comparable](e *fw.Env, c onceCase, kc codec[K]) {
	m := buildKV(c.Shards, c.Route, kc)
	var calls, panicked, created, inside [8]atomic.Int32
	var winner [8]atomic.Int64
	type got struct {
		k int
		v int
	}
	var mu sync.Mutex
	var gots []got
	var overlapped atomic.Bool
	var wg sync.WaitGroup
	start := make(chan struct{})
	for t, ks := range c.Thr {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n, k := range ks {
				mine := 1 + t*100 + n
				if k < 0 {
					k = -k - 1
					if m.SetIfNotExists(kc.of(k), mine) {
						created[k].Add(1)
						winner[k].Store(int64(mine))
					}
					continue
				}
				fw.Apart(c.Exit, func() {
					boom := fmt.Sprintf("boom %d", mine)
					defer func() {
						if r := recover(); r != nil && r != boom {
							e.Report("the call for key %d panicked with %v, its function did not", k, r)
						}
					}()
					if inside[k].Load() > 0 {
						overlapped.Store(true)
					}
					v, fresh := m.SetIfNotExistsWithFunc(kc.of(k), func() int {
						if inside[k].Add(1) != 1 {
							e.Report("two create functions for key %d run at once", k)
						}
						defer inside[k].Add(-1)
						for i := 0; i < 1+mine%3; i++ {
							runtime.Gosched()
						}
						n := int(calls[k].Add(1))
						if k < len(c.Panic) && n <= c.Panic[k] {
							panicked[k].Add(1)
							if c.Exit {
								runtime.Goexit()
							}
							panic(boom)
						}
						return mine
					})
					if fresh {
						created[k].Add(1)
						winner[k].Store(int64(mine))
						if v != mine {
							e.Report("key %d: the creating call got %d, its function returned %d", k, v, mine)
						}
					}
					mu.Lock()
					gots = append(gots, got{k, v})
					mu.Unlock()
				})
			}
		}()
	}
	close(start)
	wg.Wait()
	e.NonTrivial(overlapped.Load())
	present := 0
	for k := range calls {
		n := created[k].Load()
		good := calls[k].Load() - panicked[k].Load()
		v, ok := m.Get(kc.of(k))
		if ok {
			present++
		}
		switch {
		case n > 1:
			e.Fail("key %d was created %d times", k, n)
		case ok != (n == 1):
			e.Fail("key %d: created %d times, present: %v", k, n, ok)
		case good > n:
			e.Fail("key %d: the create function ran to its end %d times, the key was created %d times", k, good, n)
		case ok && int64(v) != winner[k].Load():
			e.Fail("key %d holds %d, its creator stored %d", k, v, winner[k].Load())
		}
		e.LabelIf(panicked[k].Load() > 0, "a create function panicked")
	}
	for _, g := range gots {
		if int64(g.v) != winner[g.k].Load() {
			e.Fail("a call for key %d returned %d, its creator stored %d", g.k, g.v, winner[g.k].Load())
		}
	}
	if m.Size() != present {
		e.Fail("Size = %d with %d keys present", m.Size(), present)
	}
}

func init() {
	fw.Add("C30", "histories", "a key was overwritten", genKV, runKV, []fw.Run{fw.Plain(3000)})
	fw.Add("C30", "linearizable", "operations of different goroutines overlapped", genKVConc, runKV,
		[]fw.Run{fw.Plain(1000), fw.Sched(1200), fw.Race(500)}, fw.Reps(20))
	fw.Add("C31", "create", "a call came in while the key's create function ran", genOnce, runOnce,
		[]fw.Run{fw.Plain(1500), fw.Sched(1500), fw.Race(500)}, fw.Reps(20))
}
