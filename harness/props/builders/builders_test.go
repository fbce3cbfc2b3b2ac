package builders

import (
	"context"
	"crypto/md5"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/crypto_fs"
	"github.com/axgrid/axutils/workers"
	"pgregory.net/rapid"
)

// C56: what a builder has built. Two objects of one builder, which is
// configured anew in between, must behave as two objects of two builders: the
// same operations are run on both pairs and everything observed is compared.

type cfg struct {
	N    int  `json:"n"` // chunk size, shard count, maximum count, workers
	T    int  `json:"t"` // a time, in ticks
	U    int  `json:"u"` // another one
	Buf  int  `json:"buf"`
	Fn   bool `json:"fn,omitempty"` // with the optional callback
	User bool `json:"user,omitempty"`
}
type bOp struct {
	X  int `json:"x"` // which object
	Op int `json:"op"`
	K  int `json:"k,omitempty"`
	D  int `json:"d,omitempty"` // ticks to wait before
}
type bCase struct {
	Kind string `json:"kind"`
	Cfg  [2]cfg `json:"cfg"`
	Late int    `json:"late,omitempty"` // the second object is built before the operation with this number
	Same bool   `json:"same,omitempty"` // the builder is not configured anew: Build is called again, the context is the same
	Ops  []bOp  `json:"ops"`
}

const tick = 10 * time.Millisecond

var kinds = []string{"chunk", "chunk", "shard", "shard", "shardchunk", "shardchunk", "guava", "hashset", "shardmap", "response", "wait", "holder", "uniq", "runner", "archive"}

func genB(t *rapid.T) bCase {
	c := bCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Same: fw.Pct(t, "same", 30)}
	for i := range c.Cfg {
		c.Cfg[i] = cfg{N: rapid.IntRange(1, 5).Draw(t, "n"), T: rapid.SampledFrom([]int{2, 3, 5, 9}).Draw(t, "t"), U: rapid.SampledFrom([]int{2, 4, 7}).Draw(t, "u"),
			Buf: rapid.SampledFrom([]int{0, 1, 5, 50}).Draw(t, "buf"), Fn: rapid.Bool().Draw(t, "fn"), User: rapid.Bool().Draw(t, "user")}
	}
	if c.Same {
		c.Cfg[0].User = c.Cfg[0].User && c.Kind == "guava" // the objects would share the channel given
		c.Cfg[1] = c.Cfg[0]
	}
	c.Ops = fw.Ops(t, "ops", 1, 40, rapid.Custom(func(t *rapid.T) bOp {
		return bOp{X: rapid.IntRange(0, 1).Draw(t, "x"), Op: rapid.IntRange(0, 9).Draw(t, "op"), K: rapid.IntRange(0, 5).Draw(t, "k"), D: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(t, "d")}
	}))
	c.Late = rapid.IntRange(0, len(c.Ops)/2).Draw(t, "late")
	return c
}

// lab is one run of the operations.
type lab struct {
	e     *fw.Env
	c     bCase
	start time.Time
	mu    sync.Mutex
	log   []string
	ctx   [2]context.Context
	end   [2]context.CancelFunc
	wg    sync.WaitGroup
	dir   string
	plan  *plan
	mul   int // so many times as many items
	dif   int // 1 when what is given to the builder depends on the object, 0 when it cannot
}

// note records an observation; those of one instant are sorted.
func (l *lab) note(format string, a ...any) {
	l.mu.Lock()
	l.log = append(l.log, fmt.Sprintf("%06d ", time.Since(l.start)/time.Microsecond)+fmt.Sprintf(format, a...))
	l.mu.Unlock()
}

// object is what was built: it carries out an operation.
type object func(o bOp, serial int)

// maker configures a builder for object x and builds it. A shared maker is
// called twice with one builder.
type maker func(x int, c cfg, again bool) object

func ticks(n int) time.Duration { return time.Duration(n) * tick }

func (l *lab) maker() maker {
	fn := func(x int, what string) func(...any) {
		x *= l.dif
		return func(a ...any) { l.note("%d: %s %v", x, what, a) }
	}
	switch l.c.Kind {
	case "chunk":
		b := chans.NewChunkChan[int]()
		return func(x int, c cfg, again bool) object {
			if !again {
				var in chan int
				if c.User {
					in = make(chan int, 100)
				}
				var f chans.ChunkFunc[int]
				if c.Fn {
					f = func(ch []int) { fn(x, "callback")(ch) }
				}
				l.configure([]opt{
					{set: func() { b = b.WithContext(l.ctx[x]) }, decoy: func() { b = b.WithContext(over) }},
					{set: func() { b = b.WithChunkSize(c.N) }, decoy: func() { b = b.WithChunkSize(7) }, def: func() { b = b.WithChunkSize(100) }, note: func() { l.mul = 40 }},
					{set: func() { b = b.WithChunkTimeout(ticks(c.T)) }, decoy: func() { b = b.WithChunkTimeout(77) }, def: func() { b = b.WithChunkTimeout(50 * time.Millisecond) }},
					{set: func() { b = b.WithIncomingBufferSize(c.Buf + 100) }, decoy: func() { b = b.WithIncomingBufferSize(1) }, def: func() { b = b.WithIncomingBufferSize(1000) }},
					{set: func() { b = b.WithOutgoingBufferSize(c.Buf) }, decoy: func() { b = b.WithOutgoingBufferSize(3) }, def: func() { b = b.WithOutgoingBufferSize(100) }},
					{set: func() { b = b.WithIncomingChan(in) }, decoy: func() { b = b.WithIncomingChan(make(chan int, 11)) }, def: func() { b = b.WithIncomingChan(nil) }},
					{set: func() { b = b.WithChunkFunc(f) }, decoy: func() { b = b.WithChunkFunc(func([]int) { l.note("an old callback") }) }, def: func() { b = b.WithChunkFunc(nil) }, note: func() { c.Fn = false }},
				})
			}
			m := b.Build()
			if !c.Fn {
				consume(l, x, 0, m.C(), l.ctx[x])
			}
			return func(o bOp, n int) {
				switch {
				case o.Op == 9:
					l.end[x]()
				case o.Op < 6:
					for i := range o.K * max(l.mul, 1) {
						m.Add(n*100 + i)
					}
				default:
					a, b := m.Sizes()
					l.note("%d: sizes %d %d, room %d %d", x, a, b, cap(m.Incoming()), cap(m.C()))
				}
			}
		}
	case "shard":
		b := chans.NewShardChan[int]()
		return func(x int, c cfg, again bool) object {
			if !again {
				var in chan int
				if c.User {
					in = make(chan int, 100)
				}
				var f chans.WorkerFunc[int]
				if c.Fn {
					f = func(k, i int) { fn(x, "worker")(k, i) }
				}
				l.configure([]opt{
					{set: func() { b = b.WithContext(l.ctx[x]) }, decoy: func() { b = b.WithContext(over) }},
					{set: func() { b = b.WithShardCount(c.N) }, decoy: func() { b = b.WithShardCount(7) }, def: func() { b = b.WithShardCount(4) }, note: func() { c.N = 4 }},
					{set: func() { b = b.WithIncomingBufferSize(c.Buf + 100) }, decoy: func() { b = b.WithIncomingBufferSize(1) }, def: func() { b = b.WithIncomingBufferSize(1000) }},
					{set: func() { b = b.WithOutgoingBufferSize(c.Buf) }, decoy: func() { b = b.WithOutgoingBufferSize(3) }, def: func() { b = b.WithOutgoingBufferSize(100) }},
					{set: func() { b = b.WithShardFunc(func(i int) int { return i + x*l.dif }) }, decoy: func() { b = b.WithShardFunc(func(i int) int { return 3 * i }) }},
					{set: func() { b = b.WithIncomingChan(in) }, decoy: func() { b = b.WithIncomingChan(make(chan int, 11)) }, def: func() { b = b.WithIncomingChan(nil) }},
					{set: func() { b = b.WithWorkerFunc(f) }, decoy: func() { b = b.WithWorkerFunc(func(k, i int) { l.note("an old worker") }) }, def: func() { b = b.WithWorkerFunc(nil) }, note: func() { c.Fn = false }},
				})
			}
			m, err := b.Build()
			if err != nil {
				l.e.Fail("building a ShardChan: %v", err)
			}
			if !c.Fn {
				for k := range c.N {
					consume(l, x, k, m.C(k), l.ctx[x])
				}
			}
			return func(o bOp, n int) {
				switch {
				case o.Op == 9:
					l.end[x]()
				case o.Op < 6:
					for i := range o.K {
						if err := m.Add(n*100 + i); err != nil {
							l.note("%d: Add: %v", x, err)
							return // the rest may or may not fit
						}
					}
				default:
					l.note("%d: %d shards, sizes %v, room %d", x, m.ShardCount(), m.Sizes(), cap(m.C(0)))
				}
			}
		}
	case "shardchunk":
		b := chans.NewShardChunk[int]()
		var in chan int
		return func(x int, c cfg, again bool) object {
			if !again {
				in = make(chan int, 200)
				var f chans.ShardChunkFunc[int]
				if c.Fn {
					f = func(k int, ch []int) { fn(x, "worker")(k, ch) }
				}
				l.configure([]opt{
					{set: func() { b = b.WithContext(l.ctx[x]) }, decoy: func() { b = b.WithContext(over) }},
					{set: func() { b = b.WithShardCount(c.N) }, decoy: func() { b = b.WithShardCount(7) }, def: func() { b = b.WithShardCount(4) }, note: func() { c.N = 4 }},
					{set: func() { b = b.WithChunkSize(c.U) }, decoy: func() { b = b.WithChunkSize(9) }, def: func() { b = b.WithChunkSize(500) }, note: func() { l.mul, in = 500, make(chan int, 100_000) }},
					{set: func() { b = b.WithChunkTimeout(ticks(c.T)) }, decoy: func() { b = b.WithChunkTimeout(77) }, def: func() { b = b.WithChunkTimeout(50 * time.Millisecond) }},
					{set: func() { b = b.WithIncomingBufferSize(c.Buf + 100) }, decoy: func() { b = b.WithIncomingBufferSize(1) }, def: func() { b = b.WithIncomingBufferSize(1000) }},
					{set: func() { b = b.WithOutgoingBufferSize(c.Buf) }, decoy: func() { b = b.WithOutgoingBufferSize(3) }, def: func() { b = b.WithOutgoingBufferSize(100) }},
					{set: func() { b = b.WithShardFunc(func(i int) int { return i + x*l.dif }) }, decoy: func() { b = b.WithShardFunc(func(i int) int { return 3 * i }) }},
					{set: func() { b = b.WithIncomingChan(in) }, decoy: func() { b = b.WithIncomingChan(make(chan int, 11)) }},
					{set: func() { b = b.WithShardWorker(f) }, decoy: func() { b = b.WithShardWorker(func(k int, ch []int) { l.note("an old worker") }) }, def: func() { b = b.WithShardWorker(nil) }, note: func() { c.Fn = false }},
				})
			} else {
				in = make(chan int, 200)
				b = b.WithIncomingChan(in)
			}
			m, err := b.Build()
			if err != nil {
				l.e.Fail("building a ShardChunk: %v", err)
			}
			in := in
			if !c.Fn {
				for k := range c.N {
					consume(l, x, k, m.C(k), l.ctx[x])
				}
			}
			return func(o bOp, n int) {
				switch {
				case o.Op == 9:
					l.end[x]()
				case o.Op < 6:
					for i := range o.K * max(l.mul, 1) {
						select {
						case in <- n*100 + i:
						default: // after the end
						}
					}
				default:
					s, i, q := m.Sizes()
					if l.ctx[x].Err() == nil {
						l.note("%d: %d shards, sizes %v %d %d, room %d", x, m.ShardCount(), s, i, q, cap(m.C(0)))
					}
				}
			}
		}
	case "guava":
		b := collections.NewGuavaMap[int, int]()
		return func(x int, c cfg, again bool) object {
			if !again {
				read, write := time.Duration(0), ticks(c.T)+1
				if c.Fn {
					read, write = ticks(c.U)+1, 0
				}
				l.configure([]opt{
					{set: func() { b = b.WithContext(context.Background()) }, decoy: func() { b = b.WithContext(over) }},
					{set: func() { b = b.WithMaxCount(c.N) }, decoy: func() { b = b.WithMaxCount(1) }, def: func() { b = b.WithMaxCount(0) }},
					{set: func() { b = b.WithLockLoad(c.User) }, decoy: func() { b = b.WithLockLoad(!c.User) }, def: func() { b = b.WithLockLoad(false) }},
					{set: func() { b = b.WithUnloadFunc(func(k, v int) { fn(x, "unload")(k, v) }) }, decoy: func() { b = b.WithUnloadFunc(func(k, v int) { l.note("an old unload function") }) }, def: func() { b = b.WithUnloadFunc(nil) }},
					{set: func() { b = b.WithLoadFunc(func(k int) (int, error) { fn(x, "load")(k); return k * 10, nil }) }, decoy: func() { b = b.WithLoadFunc(func(k int) (int, error) { return 999, nil }) }, def: func() { b = b.WithLoadFunc(nil) }},
					{set: func() { b = b.WithReadTimeout(read) }, decoy: func() { b = b.WithReadTimeout(33) }, def: func() { b = b.WithReadTimeout(0) }},
					{set: func() { b = b.WithWriteTimeout(write) }, decoy: func() { b = b.WithWriteTimeout(33) }, def: func() { b = b.WithWriteTimeout(0) }},
				})
			}
			m := b.Build()
			return func(o bOp, n int) {
				switch o.Op {
				case 0, 1, 2:
					m.Set(o.K, n)
				case 3, 4:
					v, err := m.Get(o.K)
					l.note("%d: Get(%d) = %d, %v", x, o.K, v, err)
				case 5:
					l.note("%d: HasOrCreate(%d) = %v", x, o.K, m.HasOrCreate(o.K, n))
				case 6:
					m.Delete(o.K)
				case 7:
					m.LockForUpdate(o.K, func() int { return n })
				default:
					l.note("%d: %v", x, m.GetStored())
				}
			}
		}
	case "hashset":
		b := collections.NewHashSet[int]()
		return func(x int, c cfg, again bool) object {
			if !again {
				l.configure([]opt{{set: func() { b = b.WithMaxCount(c.N) }, decoy: func() { b = b.WithMaxCount(1) }, def: func() { b = b.WithMaxCount(0) }}})
			}
			m := b.Build()
			return func(o bOp, n int) {
				switch o.Op {
				case 0, 1, 2, 3:
					m.Add(o.K)
				case 4, 5:
					l.note("%d: HasOrCreate(%d) = %v", x, o.K, m.HasOrCreate(o.K))
				case 6:
					m.Delete(o.K)
				default:
					ks := m.Keys()
					slices.Sort(ks)
					l.note("%d: %v %d", x, ks, m.Count())
				}
			}
		}
	case "shardmap":
		b := collections.NewShardMap[int, int]()
		return func(x int, c cfg, again bool) object {
			if !again {
				l.configure([]opt{
					{set: func() { b = b.WithShardsCount(c.N) }, decoy: func() { b = b.WithShardsCount(1) }, def: func() { b = b.WithShardsCount(6) }, note: func() { c.N = 6 }},
					{set: func() { b = b.WithShardsFunc(func(k int) int { return (k + x*l.dif) % c.N }) }, decoy: func() { b = b.WithShardsFunc(func(k int) int { return 0 }) }},
				})
			}
			m := b.Build()
			return func(o bOp, n int) {
				switch o.Op {
				case 0, 1, 2:
					m.Set(o.K, n)
				case 3, 4:
					l.note("%d: SetIfNotExists(%d) = %v", x, o.K, m.SetIfNotExists(o.K, n))
				case 5, 6:
					m.Delete(o.K)
				default:
					v, ok := m.Get(o.K)
					l.note("%d: Get(%d) = %d, %v; size %d", x, o.K, v, ok, m.Size())
				}
			}
		}
	case "response":
		b := map[bool]*collections.ResponseMapBuilder[int, int]{}
		return func(x int, c cfg, again bool) object {
			if b[true] == nil {
				b[true] = collections.NewResponseMap[int, int](l.ctx[0])
			}
			if !again {
				l.configure([]opt{
					{set: func() { b[true] = b[true].WithResponseTimeout(ticks(c.T) + 1) }, decoy: func() { b[true] = b[true].WithResponseTimeout(3) }, def: func() { b[true] = b[true].WithResponseTimeout(100 * time.Second) }},
					{set: func() { b[true] = b[true].WithClearTimeout(ticks(c.U+c.T) + 3) }, decoy: func() { b[true] = b[true].WithClearTimeout(5) }, def: func() { b[true] = b[true].WithClearTimeout(100 * time.Second) }},
				})
			}
			m := b[true].Build()
			return func(o bOp, n int) {
				if o.Op < 5 {
					m.Set(o.K, n+1)
					return
				}
				l.wg.Add(1)
				go func() {
					defer l.wg.Done()
					l.note("%d: Wait(%d) of op %d = %d", x, o.K, n, m.Wait(o.K))
				}()
			}
		}
	case "wait":
		b := collections.NewWaitMap[int, int]()
		return func(x int, c cfg, again bool) object {
			if !again {
				l.configure([]opt{
					{set: func() { b = b.WithContext(l.ctx[x]) }, decoy: func() { b = b.WithContext(over) }},
					{set: func() { b = b.WithRequestTimeout(ticks(c.T) + 1) }, decoy: func() { b = b.WithRequestTimeout(3) }, def: func() { b = b.WithRequestTimeout(10 * time.Second) }},
					{set: func() { b = b.WithResponseTtl(ticks(c.U) + 3) }, decoy: func() { b = b.WithResponseTtl(5) }, def: func() { b = b.WithResponseTtl(5 * time.Minute) }},
				})
			}
			m := b.Build()
			return func(o bOp, n int) {
				switch {
				case o.Op == 9:
					l.end[x]()
				case o.Op == 8:
					l.note("%d: count %d", x, m.Count())
				case o.Op < 4:
					m.Set(o.K, n+1)
				default:
					l.wg.Add(1)
					go func() {
						defer l.wg.Done()
						l.note("%d: Wait(%d) of op %d = %d", x, o.K, n, m.Wait(o.K))
					}()
				}
			}
		}
	case "holder":
		b := collections.NewHolderMap[int, int]()
		return func(x int, c cfg, again bool) object {
			if !again {
				l.configure([]opt{
					{set: func() { b = b.WithContext(l.ctx[x]) }, decoy: func() { b = b.WithContext(over) }},
					{set: func() { b = b.WithTimeout(ticks(c.T) + 1) }, decoy: func() { b = b.WithTimeout(3) }, def: func() { b = b.WithTimeout(10 * time.Second) }},
					{set: func() { b = b.WithTTL(ticks(c.U) + 3) }, decoy: func() { b = b.WithTTL(5) }, def: func() { b = b.WithTTL(5 * time.Minute) }},
				})
			}
			m := b.Build()
			return func(o bOp, n int) {
				switch {
				case o.Op == 9:
					l.end[x]()
				case o.Op == 8:
					v, err := m.Get(o.K)
					l.note("%d: Get(%d) = %d, %v; count %d", x, o.K, v, err != nil, m.Count())
				case o.Op < 2:
					l.note("%d: Release(%d): %v", x, o.K, m.Release(o.K) != nil)
				case o.Op < 4:
					l.note("%d: Error(%d): %v", x, o.K, m.Error(o.K, errors.New("given")) != nil)
				default:
					l.wg.Add(1)
					go func() {
						defer l.wg.Done()
						l.note("%d: Wait(%d) of op %d: %v", x, o.K, n, m.Wait(o.K, n) != nil)
					}()
				}
			}
		}
	case "uniq":
		b := collections.NewStructUniqSet[int]()
		return func(x int, c cfg, again bool) object {
			if !again {
				l.configure([]opt{
					{set: func() { b = b.WithContext(l.ctx[x]) }, decoy: func() { b = b.WithContext(over) }},
					{set: func() { b = b.WithElementTtl(ticks(c.T) + 1) }, decoy: func() { b = b.WithElementTtl(3) }, def: func() { b = b.WithElementTtl(30 * time.Minute) }},
					{set: func() { b = b.WithCheckInterval(ticks(1) + 1) }, decoy: func() { b = b.WithCheckInterval(time.Hour) }, def: func() { b = b.WithCheckInterval(time.Second) }},
					{set: func() {
						b = b.WithBuildFunc(func(v int, _ ...any) ([16]byte, error) { return md5.Sum([]byte(fmt.Sprint(v / (x*l.dif + 1)))), nil })
					}, decoy: func() {
						b = b.WithBuildFunc(func(v int, _ ...any) ([16]byte, error) { return [16]byte{}, errors.New("old") })
					}},
				})
			}
			m := b.Build()
			return func(o bOp, n int) {
				switch {
				case o.Op == 9:
					l.end[x]()
				case o.Op < 5:
					ok, err := m.Add(o.K)
					l.note("%d: Add(%d) = %v, %v", x, o.K, ok, err)
				case o.Op < 7:
					ok, err := m.Remove(o.K)
					l.note("%d: Remove(%d) = %v, %v", x, o.K, ok, err)
				default:
					l.note("%d: count %d", x, m.Count())
				}
			}
		}
	case "runner":
		b := workers.NewRunner()
		return func(x int, c cfg, again bool) object {
			if !again {
				l.configure([]opt{
					{set: func() { b = b.WithContext(l.ctx[x]) }, decoy: func() { b = b.WithContext(over) }},
					{set: func() { b = b.WithWorkerCount(c.N) }, decoy: func() { b = b.WithWorkerCount(1) }, def: func() { b = b.WithWorkerCount(5) }},
				})
			}
			m := b.Build()
			return func(o bOp, n int) {
				switch {
				case o.Op == 9:
					l.end[x]()
				case c.User: // tasks of the two kinds have no order between them
					for range o.K {
						m.Run(func() {
							l.note("%d: a task of op %d starts", x, n)
							time.Sleep(ticks(1) + tick/3)
						})
					}
				default:
					ctx := l.ctx[x]
					m.RunWithContext(func(got context.Context) {
						l.note("%d: a task of op %d starts, its context is the pool's: %v", x, n, got == ctx)
						time.Sleep(ticks(1) + tick/3)
					})
				}
			}
		}
	default: // archive: Save is what builds
		files := []string{"one", "two", "three", "four", "five", "six"}
		b := crypto_fs.NewCryptoFSBuilder()
		first := true
		return func(x int, c cfg, again bool) object {
			if first {
				// both archives hold the first file; the builder keeps what was added
				b.AddFile(filepath.Join(l.dir, files[0]))
			}
			first = false
			var key []byte
			if c.Fn {
				key = []byte("0123456789abcdef")
				key[0] += byte(c.N)
			}
			b = b.WithAES(key).WithSavePath(filepath.Join(l.dir, fmt.Sprintf("out-%d", x)))
			if err := b.Save(); err != nil {
				l.e.Fail("Save: %v", err)
			}
			return func(o bOp, n int) {
				if o.Op > 3 {
					return
				}
				cfs, err := crypto_fs.CryptoFSFromFile(filepath.Join(l.dir, fmt.Sprintf("out-%d", x)), key)
				if err != nil {
					l.note("%d: the archive does not open: %v", x, err)
					return
				}
				f, err := cfs.Open(filepath.Join(l.dir, files[0]))
				if err != nil {
					l.note("%d: %v", x, err)
					return
				}
				buf := make([]byte, 100)
				n, err = f.Read(buf)
				l.note("%d: %q %v", x, buf[:n], err)
			}
		}
	}
}

func consume[T any](l *lab, x, k int, ch chan T, ctx context.Context) {
	l.wg.Add(1)
	go func() {
		defer l.wg.Done()
		for {
			select {
			case <-ctx.Done():
				return
			case v := <-ch:
				l.note("%d: received from %d: %v", x, k, v)
			}
		}
	}()
}

// play runs the operations and returns what was observed.
// With only >= 0 that object is alone: the other one is not built.
func play(e *fw.Env, c bCase, shared bool, only int, dir string) []string {
	l := &lab{e: e, c: c, dir: dir, dif: 1}
	if c.Same {
		l.dif = 0
	}
	e.Bubble(func() {
		l.start = time.Now()
		for i := range l.ctx {
			l.ctx[i], l.end[i] = context.WithCancel(context.Background())
		}
		if c.Same {
			l.end[1]()
			l.ctx[1], l.end[1] = l.ctx[0], l.end[0]
		}
		defer l.wg.Wait()
		defer l.end[0]()
		defer l.end[1]()
		mk := l.maker()
		var objs [2]object
		if only != 1 {
			objs[0] = mk(0, c.Cfg[0], false)
		}
		second := func() {
			if !shared {
				mk = l.maker()
			}
			if only != 0 {
				objs[1] = mk(1, c.Cfg[1], shared && c.Same)
			}
			fw.Settle()
		}
		fw.Sleep(time.Millisecond) // operations never meet a timer that is a whole number of ticks
		for n, o := range c.Ops {
			if n == c.Late {
				second()
			}
			fw.Sleep(ticks(o.D) + 100*time.Microsecond)
			if o.X == 1 && n < c.Late {
				o.X = 0
			}
			if only >= 0 && o.X != only {
				fw.Settle()
				continue
			}
			if l.ctx[o.X].Err() != nil {
				continue
			}
			objs[o.X](o, n)
			fw.Settle()
		}
		fw.Sleep(ticks(40))
	})
	// what happens at one instant has no order
	sort.SliceStable(l.log, func(i, j int) bool { return l.log[i] < l.log[j] })
	return l.log
}

// of picks the observations of one object.
func of(log []string, x int) (res []string) {
	for _, s := range log {
		if _, what, _ := strings.Cut(s, " "); what[0] == byte('0'+x) {
			res = append(res, s)
		}
	}
	return res
}

func runB(e *fw.Env, c bCase) {
	e.LeakIsViolation = true
	dir := ""
	if c.Kind == "archive" {
		var err error
		if dir, err = os.MkdirTemp("", "axv-b-"); err != nil {
			panic(err)
		}
		defer func() {
			if strings.Contains(dir, "axv-b-") {
				os.RemoveAll(dir)
			}
		}()
		os.WriteFile(filepath.Join(dir, "one"), []byte("the first file"), 0o644)
	}
	want := play(e, c, false, -1, dir)
	if e.Failed() {
		return
	}
	compare := func(got, want []string, what string) {
		for i := range max(len(got), len(want)) {
			g, w := "nothing more", "nothing more"
			if i < len(got) {
				g = got[i]
			}
			if i < len(want) {
				w = want[i]
			}
			if g != w {
				e.Fail("%s: observation %d is %q, want %q", what, i, g, w)
			}
		}
	}
	got := play(e, c, true, -1, dir)
	if e.Failed() {
		return
	}
	compare(got, want, "two "+c.Kind+" objects built by one builder do not behave as two of different builders")
	e.Label(c.Kind)
	both := [2]bool{}
	for x := range both {
		both[x] = len(of(want, x)) > 0
	}
	e.NonTrivial(both[0] && both[1])
	if c.Same { // what the callbacks observe is not told apart
		return
	}
	x := len(c.Ops) % 2
	got = play(e, c, false, x, dir)
	if e.Failed() {
		return
	}
	compare(got, of(want, x), "a "+c.Kind+" object does not behave as it does next to another one")
}

func init() {
	fw.Add("C56", "pairs", "both objects were seen to do something", genB, runB, []fw.Run{fw.Plain(20000), fw.Race(4000)})
}
