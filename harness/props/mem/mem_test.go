package mem

import (
	"context"
	"math/rand/v2"
	"runtime"
	"sync"
	"time"
	"weak"

	"axverif/fw"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/workers"
	"github.com/rs/zerolog"
	"pgregory.net/rapid"
)

// C54: what has left a collection, channel or pool is not kept alive by it.
//
// Every key, value and item of a case is its own heap object, known to the
// harness by a weak pointer only. At most Peak of them are in the container at
// a time, many more than that come and go, and then, with the container still
// in use, the objects are counted that survive a garbage collection.

type thing struct {
	id  int
	pad [6]int
}

type memCase struct {
	Kind string `json:"kind"`
	Way  int    `json:"way"` // how objects leave; 0 is all ways mixed
	Peak int    `json:"peak"`
	N    int    `json:"n"`
	Seed uint32 `json:"seed"`
}

var ways = map[string]int{"set": 2, "hashset": 4, "twokey": 4, "simple": 2, "shard": 3, "guava": 5, "guavaread": 3, "guavawrite": 3,
	"request": 3, "response": 2, "wait": 3, "holder": 3, "chunk": 2, "shardchan": 1, "shardchunk": 1, "runner": 2}
var kinds = []string{"set", "hashset", "twokey", "simple", "shard", "guava", "guavaread", "guavawrite", "request", "response", "wait", "holder", "chunk", "shardchan", "shardchunk", "runner"}

func genMem(t *rapid.T) memCase {
	c := memCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	c.Way = rapid.IntRange(0, ways[c.Kind]).Draw(t, "way")
	c.Peak = rapid.SampledFrom([]int{1, 2, 4, 8, 16}).Draw(t, "peak")
	c.N = c.Peak*rapid.SampledFrom([]int{40, 60, 100}).Draw(t, "times") + 200
	c.Seed = uint32(rapid.IntRange(0, 1<<20).Draw(t, "seed"))
	return c
}

type lab struct {
	e    *fw.Env
	c    memCase
	r    *rand.Rand
	ctx  context.Context
	mu   sync.Mutex
	all  []weak.Pointer[thing]
	made int
	heap bool // nothing is tracked; the memory is measured as a whole
}

func (l *lab) fresh() *thing {
	l.mu.Lock()
	defer l.mu.Unlock()
	p := &thing{id: l.made}
	l.made++
	if !l.heap {
		l.all = append(l.all, weak.Make(p))
	}
	return p
}

// way tells which way the next object is to leave, of 1 to n.
func (l *lab) way() int {
	if l.c.Way > 0 {
		return l.c.Way
	}
	return 1 + l.r.IntN(ways[l.c.Kind])
}

const ms = time.Millisecond

func runMem(e *fw.Env, c memCase) {
	e.Bubble(func() {
		e.Label(c.Kind)
		once := func(n int) (alive, made int) {
			ctx, cancel := context.WithCancel(context.Background())
			defer fw.Settle()
			defer cancel()
			c := c
			c.N = n
			l := &lab{e: e, c: c, r: rand.New(rand.NewPCG(uint64(c.Seed), 7)), ctx: ctx}
			keep := l.run()
			fw.Settle()
			runtime.GC()
			runtime.GC()
			for _, w := range l.all {
				if w.Value() != nil {
					alive++
				}
			}
			runtime.KeepAlive(keep)
			if c.Kind == "twokey" { // three objects for each entry
				alive = alive / 3
			}
			return alive, l.made
		}
		alive, made := once(c.N)
		// slack: spare capacity, buffers
		if limit := 6*c.Peak + 24; alive > limit {
			// the runtime forgets stopped timers only now and then: does it go on like that?
			if more, much := once(8 * c.N); more > 3*alive {
				e.Fail("%s, leaving by way %d: of %d objects that came and went, at most %d at a time, %d are kept alive (%d of %d)", c.Kind, c.Way, much, c.Peak, more, alive, made)
			}
			e.Label("many alive, but no more with more objects")
		}
		e.NonTrivial(made > 100)
	})
}

func (l *lab) run() any {
	switch l.c.Kind {
	case "set":
		return l.set()
	case "hashset":
		return l.hashSet()
	case "twokey":
		return l.twoKey()
	case "simple":
		return l.simple()
	case "shard":
		return l.shard()
	case "guava", "guavaread", "guavawrite":
		return l.guava()
	case "request":
		return l.request()
	case "response":
		return l.response()
	case "wait":
		return l.waitMap()
	case "holder":
		return l.holder()
	case "chunk":
		return l.chunk()
	case "shardchan":
		return l.shardChan()
	case "shardchunk":
		return l.shardChunk()
	case "runner":
		return l.runner()
	}
	panic("no kind " + l.c.Kind)
}

// The memory of a container as a whole, after few and after many objects have
// come and gone: what it holds must not depend on how many there were.

func genFootprint(t *rapid.T) memCase {
	c := genMem(t)
	c.N = rapid.SampledFrom([]int{3000, 5000}).Draw(t, "n")
	return c
}

func runFootprint(e *fw.Env, c memCase) {
	e.Bubble(func() {
		measure := func() (bytes, goroutines int) {
			fw.Settle()
			goroutines = runtime.NumGoroutine()
			for i := 0; i < 3; i++ {
				runtime.GC()
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return int(m.HeapAlloc), goroutines
		}
		once := func(n int) (bytes, goroutines int) {
			ctx, cancel := context.WithCancel(context.Background())
			defer fw.Settle()
			defer cancel()
			c := c
			c.N = n
			l := &lab{e: e, c: c, r: rand.New(rand.NewPCG(uint64(c.Seed), 7)), ctx: ctx, heap: true}
			b0, g0 := measure()
			keep := l.run()
			b1, g1 := measure()
			runtime.KeepAlive(keep)
			return b1 - b0, g1 - g0
		}
		once(200) // whatever is only allocated once
		e.Label(c.Kind)
		few, gFew := once(c.N / 10)
		many, gMany := once(c.N)
		if many-few > 12*c.N+8000 { // the runtime may have needed memory of its own: does it go on like that?
			c.N *= 8
			few, gFew = many, gMany
			many, gMany = once(c.N)
		}
		if limit := 12*c.N + 8000; many-few > limit {
			e.Fail("%s, leaving by way %d, at most %d at a time: after few objects %d bytes are held, after %d objects %d", c.Kind, c.Way, c.Peak, few, c.N, many)
		}
		if gMany-gFew > 3*c.Peak+8 {
			e.Fail("%s, leaving by way %d, at most %d at a time: after few objects there are %d goroutines, after %d objects %d", c.Kind, c.Way, c.Peak, gFew, c.N, gMany)
		}
		e.NonTrivial(true)
	})
}

// churn adds with add and removes the oldest or a random one when Peak are in.
func churn[T any](l *lab, add func() T, remove func(T), clear func()) {
	var in []T
	for i := 0; i < l.c.N; i++ {
		if len(in) >= l.c.Peak {
			if clear != nil && l.r.IntN(8) == 0 {
				clear()
				in = nil
			} else {
				j := l.r.IntN(len(in))
				remove(in[j])
				in = append(in[:j:j], in[j+1:]...)
			}
		}
		in = append(in, add())
		if l.heap { // the runtime keeps what goroutines it has once needed
			fw.Settle()
		}
	}
}

func (l *lab) set() any {
	s := collections.NewSet[*thing]()
	var clear func()
	if l.c.Way != 1 {
		clear = s.Clear
	}
	churn(l, func() *thing {
		p := l.fresh()
		if l.r.IntN(2) == 0 {
			s.AddAll(p)
		} else {
			s.Add(p)
		}
		return p
	}, s.Remove, clear)
	return s
}

func (l *lab) hashSet() any {
	b := collections.NewHashSet[*thing]()
	evicts := l.c.Way == 1
	if evicts || l.c.Way == 4 {
		b = b.WithMaxCount(l.c.Peak)
	}
	s := b.Build()
	add := func() *thing {
		p := l.fresh()
		if l.r.IntN(2) == 0 {
			s.Add(p)
		} else {
			s.HasOrCreate(p)
		}
		return p
	}
	remove := func(p *thing) {
		if !evicts && !(l.c.Way == 4 && l.r.IntN(2) == 0) {
			s.Delete(p)
		}
	}
	var clear func()
	if l.c.Way == 3 || l.c.Way == 0 {
		clear = s.Clear
	}
	churn(l, add, remove, clear)
	return s
}

func (l *lab) twoKey() any {
	m := collections.NewTwoKeyMap[*thing, *thing, *thing]()
	type entry struct{ a, b *thing }
	add := func() entry {
		x := entry{l.fresh(), l.fresh()}
		m.Put(x.a, x.b, l.fresh())
		return x
	}
	var in []entry
	for i := 0; i < l.c.N; i++ {
		if len(in) < l.c.Peak {
			in = append(in, add())
			continue
		}
		j := l.r.IntN(len(in))
		switch l.way() {
		case 1:
			m.Remove(in[j].a)
			in[j] = add()
		case 2:
			m.RemoveByK2(in[j].b)
			in[j] = add()
		case 3: // another value
			m.Put(in[j].a, in[j].b, l.fresh())
			l.fresh()
			l.fresh()
		case 4: // another second key
			in[j].b = l.fresh()
			m.Put(in[j].a, in[j].b, l.fresh())
			l.fresh()
		}
	}
	return m
}

type mapLike interface {
	Set(k, v *thing)
	Delete(k *thing)
	SetIfNotExists(k, v *thing) bool
	SetIfNotExistsWithFunc(k *thing, fn func() *thing) (*thing, bool)
}

func (l *lab) mapLike(m mapLike, clear func()) any {
	add := func() *thing {
		k := l.fresh()
		switch l.r.IntN(3) {
		case 0:
			m.Set(k, l.fresh())
		case 1:
			m.SetIfNotExists(k, l.fresh())
		default:
			m.SetIfNotExistsWithFunc(k, l.fresh)
		}
		if l.c.Way != 1 { // replaced values
			m.Set(k, l.fresh())
			m.SetIfNotExists(k, l.fresh())
		}
		return k
	}
	churn(l, add, m.Delete, clear)
	return m
}

func (l *lab) simple() any { return l.mapLike(collections.NewSimpleMap[*thing, *thing](), nil) }
func (l *lab) shard() any {
	m := collections.NewShardMap[*thing, *thing]().WithShardsCount(3).WithShardsFunc(func(k *thing) int { return k.id % 3 }).Build()
	if l.c.Way == 2 {
		return l.mapLike(m, nil)
	}
	return l.mapLike(m, m.Clear)
}

func (l *lab) guava() any {
	b := collections.NewGuavaMap[*thing, *thing]().WithContext(l.ctx).WithUnloadFunc(func(_, _ *thing) {})
	timed := false // entries leave by themselves
	switch {
	case l.c.Kind == "guavaread" && l.c.Way == 3:
		b = b.WithReadTimeout(time.Hour)
	case l.c.Kind == "guavawrite" && l.c.Way == 3:
		b = b.WithWriteTimeout(time.Hour)
	case l.c.Kind == "guavaread":
		b, timed = b.WithReadTimeout(10*ms), true
	case l.c.Kind == "guavawrite":
		b, timed = b.WithWriteTimeout(10*ms), true
	}
	evicts := l.c.Kind == "guava" && l.c.Way == 3
	if evicts || timed && l.c.Way == 2 {
		b = b.WithMaxCount(l.c.Peak)
	}
	if l.c.Way == 4 || l.c.Way == 0 {
		b = b.WithLoadFunc(func(*thing) (*thing, error) { return l.fresh(), nil })
	}
	m := b.Build()
	n := 0
	add := func() *thing {
		k := l.fresh()
		switch l.r.IntN(4) {
		case 0:
			m.Set(k, l.fresh())
		case 1:
			m.HasOrCreate(k, l.fresh())
		case 2:
			m.LockForUpdate(k, l.fresh)
		default:
			m.Get(k) // loads, perhaps
		}
		if l.c.Way == 5 { // replaced values
			m.Set(k, l.fresh())
			m.LockForUpdate(k, l.fresh)
			m.HasOrCreate(k, l.fresh())
		}
		if n++; timed && n%l.c.Peak == 0 {
			fw.Sleep(11 * ms)
		}
		return k
	}
	remove := func(k *thing) {
		if !timed && !evicts {
			m.Delete(k)
		}
	}
	var clear func()
	if l.c.Way == 2 && !timed || l.c.Way == 0 {
		clear = m.Clear
	}
	churn(l, add, remove, clear)
	if timed {
		fw.Sleep(20 * ms)
	}
	return m
}

func (l *lab) request() any {
	var init []*collections.RequestMapInitializer[*thing, *thing]
	if l.c.Way == 3 {
		for i := 0; i < l.c.Peak; i++ { // all at once, all to go
			init = append(init, &collections.RequestMapInitializer[*thing, *thing]{Key: l.fresh(), Result: l.fresh()})
		}
	}
	m := collections.NewRequestMap[*thing, *thing](l.ctx, 20*ms, init...)
	for i := 0; i < l.c.N; i++ {
		k := l.fresh()
		if l.way() == 1 {
			m.GetOrCreate(k, func(*thing) *thing { return l.fresh() })
		} else {
			m.GetOrCreateWithErr(k, func(*thing) (*thing, error) { return l.fresh(), nil })
		}
		if i%l.c.Peak == 0 {
			fw.Sleep(130 * ms)
		}
	}
	fw.Sleep(300 * ms)
	return m
}

func (l *lab) response() any {
	m := collections.NewResponseMap[*thing, *thing](l.ctx).WithLogger(zerolog.Nop()).WithResponseTimeout(5 * ms).WithClearTimeout(10 * ms).Build()
	for i := 0; i < l.c.N; i++ {
		k := l.fresh()
		if l.way() == 1 {
			if l.r.IntN(2) == 0 {
				go m.Wait(k)
				fw.Settle()
			}
			m.Set(k, l.fresh())
			m.Set(k, l.fresh())
		} else {
			go m.Wait(k) // nobody answers
		}
		if i%l.c.Peak == 0 {
			fw.Sleep(25 * ms)
		}
	}
	fw.Sleep(50 * ms)
	return m
}

func (l *lab) waitMap() any {
	m := collections.NewWaitMap[*thing, *thing]().WithContext(l.ctx).WithRequestTimeout(5 * ms).WithResponseTtl(10 * ms).Build()
	for i := 0; i < l.c.N; i++ {
		k := l.fresh()
		switch l.way() {
		case 1:
			go m.Wait(k)
			fw.Settle()
			fallthrough
		case 2:
			m.Set(k, l.fresh())
			m.Set(k, l.fresh())
		case 3:
			go m.Wait(k) // nobody answers
		}
		if i%l.c.Peak == 0 {
			fw.Sleep(16 * ms)
		}
	}
	fw.Sleep(50 * ms)
	return m
}

func (l *lab) holder() any {
	m := collections.NewHolderMap[*thing, *thing]().WithContext(l.ctx).WithTimeout(5 * ms).WithTTL(10 * ms).Build()
	for i := 0; i < l.c.N; i++ {
		k := l.fresh()
		go m.Wait(k, l.fresh())
		fw.Settle()
		switch l.way() {
		case 1:
			m.Update(k, l.fresh())
			m.Release(k)
		case 2:
			m.Error(k, context.Canceled)
		}
		if i%l.c.Peak == 0 {
			fw.Sleep(16 * ms)
		}
	}
	fw.Sleep(50 * ms)
	return m
}

func (l *lab) chunk() any {
	size := min(l.c.Peak, 8)
	b := chans.NewChunkChan[*thing]().WithContext(l.ctx).WithChunkSize(size).WithChunkTimeout(5 * ms).WithIncomingBufferSize(4).WithOutgoingBufferSize(4)
	if l.c.Way == 1 {
		b = b.WithChunkFunc(func([]*thing) {})
	}
	x := b.Build()
	if l.c.Way != 1 {
		go l.drop(x.C())
	}
	for i := 0; i < l.c.N; i++ {
		x.Add(l.fresh())
		if l.r.IntN(20) == 0 {
			fw.Sleep(6 * ms)
		}
	}
	fw.Sleep(50 * ms)
	return x
}

func (l *lab) drop(c chan []*thing) {
	for {
		select {
		case <-l.ctx.Done():
			return
		case <-c:
		}
	}
}

func (l *lab) shardChan() any {
	x, err := chans.NewShardChan[*thing]().WithContext(l.ctx).WithShardCount(3).WithShardFunc(func(p *thing) int { return p.id }).
		WithIncomingBufferSize(4).WithOutgoingBufferSize(4).WithWorkerFunc(func(int, *thing) {}).Build()
	if err != nil {
		panic(err)
	}
	for i := 0; i < l.c.N; i++ {
		x.Add(l.fresh())
	}
	fw.Sleep(50 * ms)
	return x
}

func (l *lab) shardChunk() any {
	in := make(chan *thing, 4)
	x, err := chans.NewShardChunk[*thing]().WithContext(l.ctx).WithShardCount(3).WithShardFunc(func(p *thing) int { return p.id }).
		WithChunkSize(min(l.c.Peak, 8)).WithChunkTimeout(5 * ms).WithIncomingChan(in).
		WithIncomingBufferSize(4).WithOutgoingBufferSize(4).WithShardWorker(func(int, []*thing) {}).Build()
	if err != nil {
		panic(err)
	}
	for i := 0; i < l.c.N; i++ {
		in <- l.fresh()
	}
	fw.Sleep(50 * ms)
	return x
}

func (l *lab) runner() any {
	x := workers.NewRunner().WithContext(l.ctx).WithWorkerCount(3).Build()
	for i := 0; i < l.c.N; i++ {
		p := l.fresh()
		if l.way() == 1 {
			x.Run(func() { p.pad[0]++ })
		} else {
			x.RunWithContext(func(context.Context) { p.pad[0]++ })
		}
	}
	fw.Settle()
	return x
}

// A StructUniqSet keeps no pointers, so its memory is measured as a whole.

type uniqCase struct {
	N    int  `json:"n"`
	Peak int  `json:"peak"`
	Rm   bool `json:"rm"`
	Own  bool `json:"own"` // own identity function
}

func genUniqMem(t *rapid.T) uniqCase {
	return uniqCase{N: 4000, Peak: rapid.SampledFrom([]int{10, 100}).Draw(t, "peak"), Rm: rapid.Bool().Draw(t, "rm"), Own: rapid.Bool().Draw(t, "own")}
}

func runUniqMem(e *fw.Env, c uniqCase) {
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		b := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(10 * ms).WithCheckInterval(3 * ms)
		if c.Own {
			b = b.WithBuildFunc(func(v int, _ ...any) ([16]byte, error) {
				return [16]byte{byte(v), byte(v >> 8), byte(v >> 16)}, nil
			})
		}
		s := b.Build()
		heap := func() int {
			fw.Sleep(30 * ms)
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return int(m.HeapAlloc)
		}
		before, from := 0, c.N/4
		for i := 0; i < c.N; i++ {
			if i == from {
				before = heap()
			}
			s.Add(i)
			if c.Rm {
				s.Remove(i)
			}
			if i%c.Peak == 0 {
				fw.Sleep(16 * ms)
			}
		}
		grown := heap() - before
		if n := s.Count(); n != 0 {
			e.Fail("Count() = %d after everything has expired", n)
		}
		runtime.KeepAlive(s)
		if limit := 16 * (c.N - from); grown > limit {
			e.Fail("%d elements that came and went, at most %d at a time, left %d bytes behind", c.N-from, c.Peak, grown)
		}
		e.NonTrivial(true)
	})
}

func init() {
	fw.Add("C54", "kept", "more than a hundred objects came and went", genMem, runMem, []fw.Run{fw.Plain(500)})
	fw.Add("C54", "footprint", "every case", genFootprint, runFootprint, []fw.Run{fw.Plain(200)})
	fw.Add("C54", "heap", "every case", genUniqMem, runUniqMem, []fw.Run{fw.Plain(24)})
}
