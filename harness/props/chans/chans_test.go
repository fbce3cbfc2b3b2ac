package chans

import (
	"context"
	"math"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/chans"
	"pgregory.net/rapid"
)

// An item: producer and sequence number (from 1), and the shard key.
type item struct {
	P, S int
	Key  int
}

type prodItem struct {
	Gap int `json:"g,omitempty"` // virtual ms (tenths) before it is added
	Key int `json:"k,omitempty"`
}
type chanCase struct {
	Size     int          `json:"size"`    // chunk size
	Timeout  int          `json:"timeout"` // ms
	InBuf    int          `json:"in"`
	OutBuf   int          `json:"out"`
	Shards   int          `json:"shards,omitempty"`
	How      string       `json:"how"` // add | incoming | user
	Func     bool         `json:"func,omitempty"`
	Close    bool         `json:"close,omitempty"` // the user closes his channel at the end
	Prods    [][]prodItem `json:"prods"`
	Slow     []int        `json:"slow,omitempty"`  // consumer delays in ms, cyclic
	Start    int          `json:"start,omitempty"` // ms before the consumer starts
	Burst    int          `json:"burst,omitempty"` // extra items of producer 0
	NoCons   bool         `json:"nocons,omitempty"`
	CancelAt int          `json:"cancel,omitempty"`
	Late     int          `json:"late,omitempty"`
	ReadMax  int          `json:"readmax,omitempty"` // the consumer stops after that many receives
	Reuse    bool         `json:"reuse,omitempty"`   // WithIncomingBufferSize etc. left at defaults
	Grow     bool         `json:"grow,omitempty"`    // the consumer appends to the chunks it gets
}

func genKeys(t *rapid.T) *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 3), rapid.Int(), rapid.IntRange(-20, 20),
		rapid.SampledFrom([]int{math.MaxInt, math.MinInt, math.MinInt + 1, -1, 1 << 32, 1<<31 - 1, -(1 << 31)}))
}

func genChan(shards bool) func(t *rapid.T) chanCase {
	return func(t *rapid.T) chanCase {
		c := chanCase{
			Size:    rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 10, 64, 100}).Draw(t, "size"),
			Timeout: rapid.SampledFrom([]int{1, 2, 5, 20, 50, 100}).Draw(t, "timeout"),
			InBuf:   rapid.SampledFrom([]int{0, 1, 2, 16, 1000}).Draw(t, "inbuf"),
			OutBuf:  rapid.SampledFrom([]int{0, 1, 3, 100}).Draw(t, "outbuf"),
			How:     rapid.SampledFrom([]string{"add", "incoming", "user"}).Draw(t, "how"),
			Func:    rapid.Bool().Draw(t, "func"),
			Reuse:   fw.Pct(t, "defaults", 10),
			Grow:    fw.Pct(t, "grow", 30),
		}
		if c.Reuse {
			c.Size, c.InBuf, c.OutBuf, c.Timeout = 100, 1000, 100, 50
		}
		var keys *rapid.Generator[int]
		if shards {
			c.Shards = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 13, 70}).Draw(t, "shards")
			keys = genKeys(t)
		}
		np := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "prods")
		it := rapid.Custom(func(t *rapid.T) prodItem {
			p := prodItem{Gap: rapid.SampledFrom([]int{0, 0, 0, 0, 5, 10, 30, 200, 600}).Draw(t, "gap")}
			if shards {
				p.Key = keys.Draw(t, "key")
			}
			return p
		})
		for range np {
			c.Prods = append(c.Prods, fw.Ops(t, "items", 0, 90, it))
		}
		if n := len(c.Prods[0]); n > 0 && fw.Pct(t, "idles", 5) { // nothing happens for long
			c.Prods[0][rapid.IntRange(0, n-1).Draw(t, "idle")].Gap = rapid.SampledFrom([]int{5000, 20000}).Draw(t, "long")
		}
		if fw.Pct(t, "isburst", 12) {
			c.Burst = rapid.SampledFrom([]int{64, 99, 100, 101, 250, 1100, 2500}).Draw(t, "burst")
		}
		if fw.Pct(t, "slow", 40) {
			delays := []int{0, 0, 1, 7, 60}
			if c.Burst > 0 {
				delays = []int{0, 0, 1, 3}
			}
			c.Slow = rapid.SliceOfN(rapid.SampledFrom(delays), 1, 4).Draw(t, "delays")
			c.Start = rapid.SampledFrom([]int{0, 0, 30, 500}).Draw(t, "start")
		}
		if c.How == "user" {
			c.Close = rapid.Bool().Draw(t, "close")
		}
		return c
	}
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// genChanBig: long streams and chunks of thousands.
func genChanBig(shards bool) func(t *rapid.T) chanCase {
	return func(t *rapid.T) chanCase {
		c := chanCase{
			Size:    rapid.SampledFrom([]int{500, 1000, 1025, 2048, 4096, 4097, 6000, 8193}).Draw(t, "size"),
			Timeout: rapid.SampledFrom([]int{5, 50, 1000}).Draw(t, "timeout"),
			InBuf:   rapid.SampledFrom([]int{0, 1, 100, 1000, 5000, 20000}).Draw(t, "inbuf"),
			OutBuf:  rapid.SampledFrom([]int{0, 1, 3, 100, 2000}).Draw(t, "outbuf"),
			How:     rapid.SampledFrom([]string{"add", "incoming", "user"}).Draw(t, "how"),
			Func:    rapid.Bool().Draw(t, "func"),
			Grow:    rapid.Bool().Draw(t, "grow"),
			Burst:   rapid.IntRange(2000, 20000).Draw(t, "burst"),
			Prods:   [][]prodItem{nil},
		}
		if shards {
			c.Shards = rapid.SampledFrom([]int{1, 2, 3, 150}).Draw(t, "shards")
		}
		for range rapid.IntRange(0, 2).Draw(t, "more") {
			c.Prods = append(c.Prods, fw.Ops(t, "items", 0, 30, rapid.Custom(func(t *rapid.T) prodItem {
				return prodItem{Gap: rapid.SampledFrom([]int{0, 5, 30, 600}).Draw(t, "gap"), Key: rapid.IntRange(0, 5).Draw(t, "key")}
			})))
		}
		if c.How == "user" {
			c.Close = rapid.Bool().Draw(t, "close")
		}
		return c
	}
}

// items expands the case into per-producer lists.
func (c chanCase) items() [][]prodItem {
	out := make([][]prodItem, len(c.Prods))
	for i := range c.Prods {
		out[i] = append([]prodItem{}, c.Prods[i]...)
	}
	if len(out) == 0 {
		out = [][]prodItem{nil}
	}
	for i := 0; i < c.Burst; i++ {
		out[0] = append(out[0], prodItem{Key: i * 7 % 23})
	}
	return out
}

// longest bounds the virtual time the case needs, with a wide margin.
func (c chanCase) longest(prods [][]prodItem) time.Duration {
	n, slow, d := 0, 0, ms(c.Start+20*c.Timeout+1000)
	for _, p := range prods {
		for _, it := range p {
			n++
			d += time.Duration(it.Gap) * 100 * time.Microsecond
		}
	}
	for _, s := range c.Slow {
		slow = max(slow, s)
	}
	return 2 * (d + ms(n*slow))
}

// got is one delivery.
type got struct {
	shard int
	items []item
	copy  []item
	at    time.Duration
}

type recorder struct {
	mu    sync.Mutex
	start time.Time
	all   []got
	n     int
	grow  bool
}

func (r *recorder) add(shard int, chunk []item) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.all = append(r.all, got{shard, chunk, append([]item{}, chunk...), time.Since(r.start)})
	r.n += len(chunk)
	if r.grow {
		// the chunk is the consumer's own, also to append to
		for range min(cap(chunk)-len(chunk), 8) + 1 {
			chunk = append(chunk, item{-7, -7, -7})
		}
	}
}

func (r *recorder) count() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.n
}

// check verifies everything delivered: real items, each at most once, in the
// order of its producer within its shard, chunks of legal size, not modified
// after delivery. complete: every item must be there.
func (r *recorder) check(e *fw.Env, c chanCase, prods [][]prodItem, maxChunk int, complete bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	last := map[[2]int]int{}
	seen := map[[2]int]bool{}
	shardOf := map[int]int{}
	total := 0
	for gi, g := range r.all {
		if len(g.items) == 0 {
			e.Fail("delivery %d is an empty chunk", gi)
		}
		if len(g.items) > maxChunk {
			e.Fail("delivery %d has %d items, the chunk size is %d", gi, len(g.items), maxChunk)
		}
		for i, it := range g.copy {
			if g.items[i] != it {
				e.Fail("item %d of delivery %d changed after delivery from %v to %v", i, gi, it, g.items[i])
			}
			if it.P < 0 || it.P >= len(prods) || it.S < 1 || it.S > len(prods[it.P]) || (c.Shards > 0 && prods[it.P][it.S-1].Key != it.Key) {
				e.Fail("delivery %d holds %+v, which nobody added", gi, it)
			}
			k := [2]int{it.P, it.S}
			if seen[k] {
				e.Fail("%+v is delivered twice", it)
			}
			seen[k] = true
			total++
			pk := [2]int{g.shard, it.P}
			if last[pk] >= it.S {
				e.Fail("%+v is delivered after item %d of the same producer (shard %d)", it, last[pk], g.shard)
			}
			last[pk] = it.S
			if c.Shards > 0 {
				if g.shard < 0 || g.shard >= c.Shards {
					e.Fail("%+v arrives on shard %d of %d", it, g.shard, c.Shards)
				}
				if it.Key >= 0 && g.shard != it.Key%c.Shards {
					e.Fail("%+v arrives on shard %d of %d, want %d", it, g.shard, c.Shards, it.Key%c.Shards)
				}
				if s, ok := shardOf[it.Key]; ok && s != g.shard {
					e.Fail("key %d arrives on shard %d and on shard %d", it.Key, s, g.shard)
				}
				shardOf[it.Key] = g.shard
			}
		}
	}
	if complete {
		want := 0
		for p := range prods {
			want += len(prods[p])
			for s := range prods[p] {
				if !seen[[2]int{p, s + 1}] {
					e.Fail("item %d of producer %d (key %d) is lost: %d of its %d items came, %d in all", s+1, p, prods[p][s].Key, last[[2]int{0, p}], len(prods[p]), total)
				}
			}
		}
		if total != want {
			e.Fail("%d items delivered, %d added", total, want)
		}
	}
}

// target hides which of the three types is under test.
type target struct {
	add   func(item) error // nil when there is no Add
	in    chan item
	out   []chan []item // chunk kinds
	outS  []chan item   // shard kind
	sizes func() int
	other []func() bool // C(k) for k out of range must be nil
}

func build(e *fw.Env, c chanCase, kind string, ctx context.Context, rec *recorder, work func(int)) target {
	var tg target
	var user chan item
	if c.How == "user" || kind == "shardchunk" {
		user = make(chan item, c.InBuf)
	}
	switch kind {
	case "chunk":
		b := chans.NewChunkChan[item]().WithContext(ctx)
		if !c.Reuse {
			b = b.WithChunkSize(c.Size).WithChunkTimeout(ms(c.Timeout)).WithIncomingBufferSize(c.InBuf).WithOutgoingBufferSize(c.OutBuf)
		}
		if user != nil {
			b = b.WithIncomingChan(user)
		}
		if c.Func && !c.NoCons {
			b = b.WithChunkFunc(func(ch []item) { rec.add(0, ch); work(0) })
		}
		x := b.Build()
		tg.add = func(i item) error { x.Add(i); return nil }
		tg.in = x.Incoming()
		tg.out = []chan []item{x.C()}
		tg.sizes = func() int { a, b := x.Sizes(); return a + b }
	case "shard":
		b := chans.NewShardChan[item]().WithContext(ctx).WithShardCount(c.Shards).WithShardFunc(func(i item) int { return i.Key })
		if !c.Reuse {
			b = b.WithIncomingBufferSize(c.InBuf).WithOutgoingBufferSize(c.OutBuf)
		}
		if user == nil && c.How == "incoming" {
			user = make(chan item, c.InBuf)
		}
		if user != nil {
			b = b.WithIncomingChan(user)
		}
		if c.Func && !c.NoCons {
			b = b.WithWorkerFunc(func(k int, i item) { rec.add(k, []item{i}); work(k) })
		}
		x, err := b.Build()
		if err != nil {
			e.Fail("building a sharded channel: %v", err)
		}
		if x.ShardCount() != c.Shards {
			e.Fail("%d shards, want %d", x.ShardCount(), c.Shards)
		}
		tg.add = x.Add
		tg.in = user
		for k := 0; k < c.Shards; k++ {
			tg.outS = append(tg.outS, x.C(k))
		}
		tg.sizes = func() int {
			n := 0
			s := x.Sizes()
			if len(s) != c.Shards {
				e.Report("Sizes reports %d shards of %d", len(s), c.Shards)
			}
			for _, v := range s {
				n += v
			}
			return n
		}
		for _, k := range []int{-1, c.Shards, c.Shards + 7, math.MinInt, math.MaxInt} {
			tg.other = append(tg.other, func() bool { return x.C(k) == nil })
		}
	default:
		b := chans.NewShardChunk[item]().WithContext(ctx).WithShardCount(c.Shards).WithShardFunc(func(i item) int { return i.Key }).WithIncomingChan(user)
		if !c.Reuse {
			b = b.WithChunkSize(c.Size).WithChunkTimeout(ms(c.Timeout)).WithIncomingBufferSize(c.InBuf).WithOutgoingBufferSize(c.OutBuf)
		}
		if c.Func && !c.NoCons {
			b = b.WithShardWorker(func(k int, ch []item) { rec.add(k, ch); work(k) })
		}
		x, err := b.Build()
		if err != nil {
			e.Fail("building a sharded chunker: %v", err)
		}
		if x.ShardCount() != c.Shards {
			e.Fail("%d shards, want %d", x.ShardCount(), c.Shards)
		}
		tg.in = user
		for k := 0; k < c.Shards; k++ {
			tg.out = append(tg.out, x.C(k))
		}
		tg.sizes = func() int {
			s, a, b := x.Sizes()
			for _, v := range s {
				a += v
			}
			return a + b
		}
		for _, k := range []int{-1, c.Shards, c.Shards + 7, math.MinInt, math.MaxInt} {
			tg.other = append(tg.other, func() bool { return x.C(k) == nil })
		}
	}
	return tg
}

// consume starts the consumers; stop ends them.
func consume(c chanCase, tg target, rec *recorder, work func(int), stop chan struct{}, wg *sync.WaitGroup) {
	if c.Func || c.NoCons {
		return
	}
	var budget atomic.Int64
	budget.Store(int64(c.ReadMax))
	take := func() bool { return c.ReadMax == 0 || budget.Add(-1) >= 0 }
	for k, ch := range tg.out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(ms(c.Start))
			for take() {
				select {
				case <-stop:
					return
				case x, ok := <-ch:
					if !ok {
						return
					}
					rec.add(k, x)
					work(k)
				}
			}
		}()
	}
	for k, ch := range tg.outS {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(ms(c.Start))
			for take() {
				select {
				case <-stop:
					return
				case x, ok := <-ch:
					if !ok {
						return
					}
					rec.add(k, []item{x})
					work(k)
				}
			}
		}()
	}
}

func runFlow(kind string) func(*fw.Env, chanCase) {
	return func(e *fw.Env, c chanCase) {
		if kind == "shardchunk" {
			c.How = "user"
		}
		prods := c.items()
		total := 0
		for _, p := range prods {
			total += len(p)
		}
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			stop := make(chan struct{})
			rec := &recorder{start: time.Now(), grow: c.Grow}
			var nwork atomic.Int64
			work := func(int) {
				if len(c.Slow) > 0 {
					n := nwork.Add(1)
					time.Sleep(ms(c.Slow[int(n)%len(c.Slow)]))
				} else if c.Burst > 0 {
					runtime.Gosched()
				}
			}
			tg := build(e, c, kind, ctx, rec, work)
			for _, f := range tg.other {
				if !f() {
					e.Fail("a channel exists for a shard number out of range")
				}
			}
			var cw sync.WaitGroup
			consume(c, tg, rec, work, stop, &cw)
			defer cw.Wait()
			defer close(stop)
			var wg sync.WaitGroup
			for p := range prods {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for s, it := range prods[p] {
						time.Sleep(time.Duration(it.Gap) * 100 * time.Microsecond)
						x := item{p, s + 1, it.Key}
						if c.How == "add" && tg.add != nil {
							if err := tg.add(x); err != nil {
								e.Report("Add fails although the context lives: %v", err)
							}
						} else {
							select {
							case tg.in <- x:
							case <-stop:
								return
							}
						}
					}
				}()
			}
			// enough time for any consumer pace; a stuck pipeline stays stuck
			limit := c.longest(prods)
			for time.Since(rec.start) < limit && rec.count() < total {
				fw.Sleep(min(limit, ms(200)))
			}
			fw.Sleep(ms(3*c.Timeout + 5))
			if n := rec.count(); n < total {
				rec.check(e, c, prods, maxChunk(c, kind), false)
				rec.check(e, c, prods, maxChunk(c, kind), true)
			}
			wg.Wait()
			if c.Close {
				close(tg.in)
				e.Label("incoming channel closed")
				fw.Sleep(ms(10 * c.Timeout))
			}
			rec.check(e, c, prods, maxChunk(c, kind), true)
			if n := tg.sizes(); n != 0 && !c.Close {
				e.Fail("everything was delivered, yet the queues report %d entries", n)
			}
			e.NonTrivial(total > 1)
			e.LabelIf(len(c.Slow) > 0, "slow consumer")
			e.LabelIf(len(prods) > 1, "several producers")
			e.LabelIf(total > 1000, ">1000 items")
			neg := false
			for _, p := range prods {
				for _, it := range p {
					neg = neg || it.Key < 0
				}
			}
			e.LabelIf(neg, "negative keys")
		})
	}
}

func maxChunk(c chanCase, kind string) int {
	switch {
	case kind == "shard":
		return 1
	case kind == "shardchunk" && c.Reuse:
		return 500
	}
	return c.Size
}

// closing the incoming channel in the middle, with items pending
func runClose(kind string) func(*fw.Env, chanCase) {
	return func(e *fw.Env, c chanCase) {
		c.How, c.Close = "user", true
		prods := c.items()[:1]
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			stop := make(chan struct{})
			rec := &recorder{start: time.Now(), grow: c.Grow}
			var nwork atomic.Int64
			work := func(int) {
				if len(c.Slow) > 0 {
					time.Sleep(ms(c.Slow[int(nwork.Add(1))%len(c.Slow)]))
				} else {
					runtime.Gosched()
				}
			}
			tg := build(e, c, kind, ctx, rec, work)
			var cw sync.WaitGroup
			consume(c, tg, rec, work, stop, &cw)
			defer cw.Wait()
			defer close(stop)
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s, it := range prods[0] {
					time.Sleep(time.Duration(it.Gap) * 100 * time.Microsecond)
					select {
					case tg.in <- item{0, s + 1, it.Key}:
					case <-stop:
						return
					}
				}
				close(tg.in) // right after the last item
			}()
			// a chunker that invents items after the close would never rest,
			// so look after bounded virtual steps
			limit := c.longest(prods)
			for time.Since(rec.start) < limit && rec.count() < len(prods[0]) {
				time.Sleep(ms(50))
			}
			for i := 0; i < 5 && rec.count() <= len(prods[0]); i++ {
				time.Sleep(ms(c.Timeout + 1))
			}
			rec.check(e, c, prods, maxChunk(c, kind), true)
			e.NonTrivial(len(prods[0]) > 0)
		})
	}
}

// ---------------------------------------------------------------------------
// C02: latency

func runLatency(kind string) func(*fw.Env, chanCase) {
	return func(e *fw.Env, c chanCase) {
		c.Slow, c.Start, c.Close, c.NoCons = nil, 0, false, false
		if kind == "shardchunk" {
			c.How = "user"
		}
		prods := c.items()
		size := maxChunk(c, kind)
		timeout := ms(c.Timeout)
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			stop := make(chan struct{})
			rec := &recorder{start: time.Now(), grow: c.Grow}
			tg := build(e, c, kind, ctx, rec, func(int) {})
			var cw sync.WaitGroup
			consume(c, tg, rec, func(int) {}, stop, &cw)
			defer cw.Wait()
			defer close(stop)
			// one schedule of all producers in order of time
			type ev struct {
				at time.Duration
				it item
			}
			var evs []ev
			for p := range prods {
				var at time.Duration
				for s, it := range prods[p] {
					at += time.Duration(it.Gap) * 100 * time.Microsecond
					evs = append(evs, ev{at, item{p, s + 1, it.Key}})
				}
			}
			sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
			addedAt := map[[2]int]time.Duration{}
			perShard := map[int]int{}
			shard := func(k int) int {
				if c.Shards == 0 {
					return 0
				}
				if k < 0 {
					return -1
				}
				return k % c.Shards
			}
			deliv, counted := map[int]int{}, 0
			for i, x := range evs {
				if d := x.at - time.Since(rec.start); d > 0 {
					time.Sleep(d)
				}
				addedAt[[2]int{x.it.P, x.it.S}] = time.Since(rec.start)
				if c.How == "add" && tg.add != nil {
					tg.add(x.it)
				} else {
					tg.in <- x.it
				}
				perShard[shard(x.it.Key)]++
				if i+1 < len(evs) && evs[i+1].at == x.at && i%(3+len(evs)/500) != 0 {
					continue
				}
				fw.Settle()
				rec.mu.Lock()
				for ; counted < len(rec.all); counted++ {
					for _, it := range rec.all[counted].copy {
						deliv[shard(it.Key)]++
					}
				}
				rec.mu.Unlock()
				for s, n := range perShard {
					if s < 0 {
						continue
					}
					if left := n - deliv[s]; left >= size {
						e.Fail("with a consumer waiting, %d items rest undelivered on shard %d at %v; the chunk size is %d", left, s, time.Since(rec.start), size)
					}
				}
			}
			fw.Sleep(timeout + ms(1))
			rec.check(e, c, prods, size, true)
			rec.mu.Lock()
			defer rec.mu.Unlock()
			lastPartial := map[int]time.Duration{}
			partials := 0
			for _, g := range rec.all {
				for _, it := range g.copy {
					if age := g.at - addedAt[[2]int{it.P, it.S}]; age > timeout {
						e.Fail("%+v was delivered %v after it was added; the timeout is %v", it, age, timeout)
					}
				}
				if len(g.copy) < size {
					partials++
					if l, ok := lastPartial[g.shard]; ok && g.at-l < timeout {
						e.Fail("two partial chunks (%d items of %d) within %v on shard %d; the timeout is %v", len(g.copy), size, g.at-l, g.shard, timeout)
					}
					lastPartial[g.shard] = g.at
				}
			}
			e.NonTrivial(partials > 0)
			e.LabelIf(partials > 0, "partial chunks")
			e.LabelIf(partials < len(rec.all), "full chunks")
		})
	}
}

// ---------------------------------------------------------------------------
// C05: cancellation

func genCancel(kind string) func(t *rapid.T) chanCase {
	g := genChan(kind != "chunk")
	return func(t *rapid.T) chanCase {
		c := g(t)
		c.Close = false
		c.CancelAt = rapid.SampledFrom([]int{0, 1, 3, 10, 40, 70, 300}).Draw(t, "cancel")
		c.NoCons = rapid.Bool().Draw(t, "nocons")
		c.Late = rapid.SampledFrom([]int{0, 1, 3, 5, 1200}).Draw(t, "late")
		if fw.Pct(t, "stops", 30) {
			c.ReadMax = rapid.IntRange(1, 10).Draw(t, "readmax")
		}
		return c
	}
}

func runCancel(kind string) func(*fw.Env, chanCase) {
	return func(e *fw.Env, c chanCase) {
		if kind == "shardchunk" {
			c.How = "user"
		}
		prods := c.items()
		e.LeakIsViolation = true
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			stop := make(chan struct{})
			rec := &recorder{start: time.Now(), grow: c.Grow}
			var nwork atomic.Int64
			work := func(int) {
				if len(c.Slow) > 0 {
					time.Sleep(ms(c.Slow[int(nwork.Add(1))%len(c.Slow)]))
				}
			}
			tg := build(e, c, kind, ctx, rec, work)
			var cw sync.WaitGroup
			consume(c, tg, rec, work, stop, &cw)
			defer cw.Wait()
			defer close(stop)
			var blocked atomic.Int64
			send := func(x item) {
				blocked.Add(1)
				defer blocked.Add(-1)
				if c.How == "add" && tg.add != nil {
					tg.add(x)
					return
				}
				select {
				case tg.in <- x:
				case <-ctx.Done():
				}
			}
			full := make([][]prodItem, len(prods))
			for p := range prods {
				full[p] = append(full[p], prods[p]...)
				for i := 0; i < c.Late; i++ {
					full[p] = append(full[p], prodItem{Key: i})
				}
				go func() {
					for s, it := range prods[p] {
						time.Sleep(time.Duration(it.Gap) * 100 * time.Microsecond)
						send(item{p, s + 1, it.Key})
					}
					// and some after the cancellation
					if d := ms(c.CancelAt+2) - time.Since(rec.start); d > 0 {
						time.Sleep(d)
					}
					for i := 0; i < c.Late; i++ {
						send(item{p, len(prods[p]) + i + 1, i})
					}
				}()
			}
			fw.Sleep(ms(c.CancelAt) + 30*time.Microsecond)
			wasBlocked := blocked.Load() > 0
			e.LabelIf(wasBlocked, "a producer blocked at cancellation")
			queued := tg.sizes()
			e.LabelIf(queued > 0, "items queued at cancellation")
			e.NonTrivial(wasBlocked || queued > 0)
			cancel()
			fw.Sleep(10 * time.Minute)
			if n := blocked.Load(); n > 0 {
				e.Fail("%d producers are still blocked ten minutes after the context was cancelled", n)
			}
			rec.check(e, c, full, maxChunk(c, kind), false)
			rec.mu.Lock()
			n := len(rec.all)
			rec.mu.Unlock()
			_ = n
		})
	}
}

// nil shard function
type nilCase struct {
	Shards int  `json:"shards"`
	Chunk  bool `json:"chunk"`
}

func runNil(e *fw.Env, c nilCase) {
	e.NonTrivial(true)
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if c.Chunk {
			x, err := chans.NewShardChunk[item]().WithContext(ctx).WithShardCount(c.Shards).Build()
			if err == nil || x != nil {
				e.Fail("a sharded chunker without a shard function builds: %v", err)
			}
			return
		}
		x, err := chans.NewShardChan[item]().WithContext(ctx).WithShardCount(c.Shards).Build()
		if err == nil || x != nil {
			e.Fail("a sharded channel without a shard function builds: %v", err)
		}
	})
}

func init() {
	two := "more than one item is sent"
	fw.Add("C01", "flow", two, genChan(false), runFlow("chunk"), []fw.Run{fw.Plain(16000), fw.Sched(6000), fw.Race(600)})
	fw.Add("C01", "big", two, genChanBig(false), runFlow("chunk"), []fw.Run{fw.Plain(160)})
	fw.Add("C03", "big", two, genChanBig(true), runFlow("shard"), []fw.Run{fw.Plain(80)})
	fw.Add("C04", "big", two, genChanBig(true), runFlow("shardchunk"), []fw.Run{fw.Plain(100)})
	fw.Add("C02", "big", "a chunk is released by the timeout", genChanBig(false), runLatency("chunk"), []fw.Run{fw.Plain(120)})
	fw.Add("C04", "big latency", "a chunk is released by the timeout", genChanBig(true), runLatency("shardchunk"), []fw.Run{fw.Plain(60)})
	fw.Add("C01", "close", "items are sent before the incoming channel is closed", genChan(false), runClose("chunk"), []fw.Run{fw.Plain(4000)})
	fw.Add("C02", "latency", "a chunk is released by the timeout", genChan(false), runLatency("chunk"), []fw.Run{fw.Plain(16000), fw.Sched(4000)})
	fw.Add("C03", "flow", two, genChan(true), runFlow("shard"), []fw.Run{fw.Plain(12000), fw.Sched(5000), fw.Race(500)})
	fw.Add("C03", "close", "items are sent before the incoming channel is closed", genChan(true), runClose("shard"), []fw.Run{fw.Plain(3000)})
	fw.Add("C03", "nil", "every case", func(t *rapid.T) nilCase {
		return nilCase{rapid.IntRange(1, 80).Draw(t, "shards"), rapid.Bool().Draw(t, "chunk")}
	}, runNil, []fw.Run{fw.Plain(100)})
	fw.Add("C04", "flow", two, genChan(true), runFlow("shardchunk"), []fw.Run{fw.Plain(8000), fw.Sched(3000), fw.Race(300)})
	fw.Add("C04", "close", "items are sent before the incoming channel is closed", genChan(true), runClose("shardchunk"), []fw.Run{fw.Plain(2500)})
	fw.Add("C04", "latency", "a chunk is released by the timeout", genChan(true), runLatency("shardchunk"), []fw.Run{fw.Plain(5000)})
	for _, k := range []string{"chunk", "shard", "shardchunk"} {
		fw.Add("C05", k, "items are queued or a producer is blocked at cancellation", genCancel(k), runCancel(k), []fw.Run{fw.Plain(6000), fw.Sched(1500), fw.Race(200)})
	}
}
