package chans

import (
	"context"
	"fmt"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/chans"
	"pgregory.net/rapid"
)

// C55: bounded buffering. One producer adds N items as fast as it may; nobody
// receives but the plan, one delivery at a time, each looked at when every
// goroutine rests.

type qStep struct {
	Shard int `json:"s"`           // receive once from this shard
	Wait  int `json:"w,omitempty"` // or wait so many ms
}
type qCase struct {
	Kind     string  `json:"kind"`
	Size     int     `json:"size"`
	Timeout  int     `json:"timeout"`
	In       int     `json:"in"`
	Out      int     `json:"out"`
	Shards   int     `json:"shards,omitempty"`
	N        int     `json:"n"`
	Keys     []int   `json:"keys,omitempty"` // cyclic
	Defaults bool    `json:"defaults,omitempty"`
	User     bool    `json:"user,omitempty"`
	Steps    []qStep `json:"steps,omitempty"`
}

func genQueue(t *rapid.T) qCase {
	c := qCase{Kind: rapid.SampledFrom([]string{"chunk", "chunk", "shard", "shard", "shardchunk"}).Draw(t, "kind"),
		Size:    rapid.SampledFrom([]int{1, 2, 3, 5, 10, 40}).Draw(t, "size"),
		Timeout: rapid.SampledFrom([]int{1, 5, 50, 1000}).Draw(t, "timeout"),
		In:      rapid.SampledFrom([]int{0, 1, 2, 3, 16, 50}).Draw(t, "in"),
		Out:     rapid.SampledFrom([]int{0, 1, 2, 5, 20}).Draw(t, "out"),
		User:    rapid.Bool().Draw(t, "user"),
	}
	if c.Kind != "chunk" {
		c.Shards = rapid.SampledFrom([]int{1, 2, 3, 4, 7}).Draw(t, "shards")
		c.Keys = rapid.SliceOfN(rapid.IntRange(0, c.Shards), 1, 6).Draw(t, "keys")
	}
	if fw.Pct(t, "defaults", 4) {
		c.Defaults, c.In, c.Out, c.Timeout = true, 1000, 100, 50
		switch c.Kind {
		case "chunk":
			c.Size = 100
		case "shard":
			c.Shards = 4
			c.Keys = rapid.SliceOfN(rapid.IntRange(0, 4), 1, 6).Draw(t, "keys")
		default:
			c.Size, c.Shards, c.User = 500, 4, false
			c.Keys = rapid.SliceOfN(rapid.IntRange(0, 4), 1, 2).Draw(t, "keys")
		}
	}
	full := c.most()
	c.N = rapid.OneOf(rapid.IntRange(0, full+3), rapid.IntRange(0, c.In+2), rapid.Just(full+c.Size+30)).Draw(t, "n")
	c.Steps = fw.Ops(t, "steps", 0, 40, rapid.Custom(func(t *rapid.T) qStep {
		s := qStep{Shard: rapid.IntRange(0, max(0, c.Shards-1)).Draw(t, "s")}
		if fw.Pct(t, "wait", 15) {
			s.Wait = rapid.SampledFrom([]int{1, c.Timeout, 2*c.Timeout + 1}).Draw(t, "w")
		}
		return s
	}))
	return c
}

// most is the number of items that may be inside at most: all buffers, and
// what a stage may have in hand.
func (c qCase) most() int {
	switch c.Kind {
	case "chunk":
		return c.In + (c.Out+2)*c.Size + 2
	case "shard":
		return c.In + 2 + c.Shards*(c.Out+1)
	}
	return c.In + 2 + c.Shards*(c.In/c.Shards+2+1000+(c.Out+2)*c.Size)
}

func runQueue(e *fw.Env, c qCase) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		defer wg.Wait()
		defer cancel()
		var user chan item
		if c.User || c.Kind == "shardchunk" && !c.Defaults {
			user = make(chan item, c.In)
		}
		if c.Kind == "shardchunk" && c.Defaults {
			user = make(chan item, 1000)
		}
		start := time.Now()
		var add func(item) error
		var in chan item
		var outC []chan []item
		var outS []chan item
		var sizes func() (perShard []int, in, out int)
		switch c.Kind {
		case "chunk":
			b := chans.NewChunkChan[item]().WithContext(ctx)
			if !c.Defaults {
				b = b.WithChunkSize(c.Size).WithChunkTimeout(ms(c.Timeout)).WithIncomingBufferSize(c.In).WithOutgoingBufferSize(c.Out)
			}
			if user != nil {
				b = b.WithIncomingChan(user)
			}
			x := b.Build()
			add = func(i item) error { x.Add(i); return nil }
			in, outC = x.Incoming(), []chan []item{x.C()}
			if user != nil && in != user {
				e.Fail("Incoming is not the channel given")
			}
			sizes = func() ([]int, int, int) { a, b := x.Sizes(); return nil, a, b }
		case "shard":
			b := chans.NewShardChan[item]().WithContext(ctx).WithShardFunc(func(i item) int { return i.Key })
			if !c.Defaults {
				b = b.WithShardCount(c.Shards).WithIncomingBufferSize(c.In).WithOutgoingBufferSize(c.Out)
			}
			if user != nil {
				b = b.WithIncomingChan(user)
			}
			x, err := b.Build()
			if err != nil || x.ShardCount() != c.Shards {
				e.Fail("building a sharded channel with %d shards: %v", c.Shards, err)
			}
			add, in = x.Add, user
			for k := range c.Shards {
				outS = append(outS, x.C(k))
			}
			sizes = func() ([]int, int, int) { return x.Sizes(), 0, 0 }
		default:
			b := chans.NewShardChunk[item]().WithContext(ctx).WithShardFunc(func(i item) int { return i.Key }).WithIncomingChan(user)
			if !c.Defaults {
				b = b.WithShardCount(c.Shards).WithChunkSize(c.Size).WithChunkTimeout(ms(c.Timeout)).WithIncomingBufferSize(c.In).WithOutgoingBufferSize(c.Out)
			}
			x, err := b.Build()
			if err != nil || x.ShardCount() != c.Shards {
				e.Fail("building a sharded chunker with %d shards: %v", c.Shards, err)
			}
			in = user
			for k := range c.Shards {
				outC = append(outC, x.C(k))
			}
			sizes = x.Sizes
		}
		key := func(i int) int {
			if len(c.Keys) == 0 {
				return 0
			}
			return c.Keys[i%len(c.Keys)]
		}
		var accepted atomic.Int64
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range c.N {
				x := item{0, i + 1, key(i)}
				if add != nil && !(c.User && i%2 == 1) {
					if err := add(x); err != nil {
						return
					}
				} else {
					select {
					case in <- x:
					case <-ctx.Done():
						return
					}
				}
				if ctx.Err() != nil {
					return
				}
				accepted.Add(1)
			}
		}()
		next := make([]int, max(1, c.Shards)) // position of the next item of every shard
		skip := func(k int) {
			for c.Shards > 0 && next[k] < c.N && key(next[k])%c.Shards != k {
				next[k]++
			}
		}
		delivered, perShard := 0, make([]int, max(1, c.Shards))
		// receive takes what shard k has ready now
		receive := func(k int, when string) bool {
			var got []item
			if outS != nil {
				select {
				case it := <-outS[k]:
					got = []item{it}
				default:
					return false
				}
			} else {
				select {
				case got = <-outC[k]:
				default:
					return false
				}
			}
			if len(got) == 0 || len(got) > c.Size && outC != nil {
				e.Fail("%s: a chunk of %d items, the chunk size is %d", when, len(got), c.Size)
			}
			for _, it := range got {
				skip(k)
				if next[k] >= c.N || it.S != next[k]+1 {
					e.Fail("%s: shard %d delivers %+v where item %d of %d is due", when, k, it, next[k]+1, c.N)
				}
				next[k]++
				perShard[k]++
				delivered++
			}
			return true
		}
		blocked, partial := false, false
		look := func(when string) {
			fw.Settle()
			acc := int(accepted.Load())
			inside := acc - delivered
			s, qi, qo := sizes()
			at := fmt.Sprintf("%s (%+v): %d of %d items accepted, %d delivered, Sizes %v %d %d", when, c.brief(), acc, c.N, delivered, s, qi, qo)
			if acc < c.N {
				blocked = true
				if inside < c.In {
					e.Fail("%s: the producer waits although the incoming buffer takes %d", at, c.In)
				}
			}
			if m := c.most(); inside > m {
				e.Fail("%s: %d items are inside, at most %d may be", at, inside, m)
			}
			sum := 0
			for _, v := range s {
				sum += v
			}
			if sum+qi+qo > inside {
				e.Fail("%s: more entries reported than items inside", at)
			}
			switch c.Kind {
			case "chunk":
				if qi != len(in) || qo != len(outC[0]) {
					e.Fail("%s: there are %d items in the incoming and %d chunks in the outgoing channel", at, len(in), len(outC[0]))
				}
				if acc < c.N && !partial && inside < c.In+c.Out*c.Size {
					e.Fail("%s: the producer waits although the buffers take %d items and %d chunks of %d", at, c.In, c.Out, c.Size)
				}
				if qo < c.Out && len(in) > 0 && c.Out > 0 {
					e.Fail("%s: items wait in the incoming channel although there is room for chunks", at)
				}
				if inside-qi >= (qo+1)*c.Size && qo < c.Out {
					e.Fail("%s: a full chunk is held back although there is room for it", at)
				}
			case "shard":
				if len(s) != c.Shards {
					e.Fail("%s: there are %d shards", at, c.Shards)
				}
				room := true
				for k := range s {
					if s[k] != len(outS[k]) {
						e.Fail("%s: there are %d items in channel %d", at, len(outS[k]), k)
					}
					room = room && s[k] < c.Out
				}
				if acc < c.N && slices.Max(s) < c.Out {
					e.Fail("%s: the producer waits although every shard has room for %d items", at, c.Out)
				}
				// with room on every shard nothing waits elsewhere
				if room && sum != inside {
					e.Fail("%s: %d items are inside, although every shard has room", at, inside)
				}
				if room {
					want := make([]int, c.Shards)
					for i := range acc {
						want[key(i)%c.Shards]++
					}
					for k := range want {
						if want[k]-perShard[k] != s[k] {
							e.Fail("%s: shard %d holds %d items, want %d", at, k, s[k], want[k]-perShard[k])
						}
					}
				}
			default:
				if len(s) != c.Shards {
					e.Fail("%s: there are %d shards", at, c.Shards)
				}
				n, room := 0, true
				for _, ch := range outC {
					n += len(ch)
					room = room && len(ch) < c.Out
				}
				if qo != n {
					e.Fail("%s: there are %d chunks in the outgoing channels", at, n)
				}
				if room && (sum != 0 || qi != 0 || len(in) != 0) {
					e.Fail("%s: items wait although there is room for chunks on every shard", at)
				}
			}
		}
		look("at first")
		for i, s := range c.Steps {
			when := fmt.Sprintf("after step %d %+v", i, s)
			if s.Wait > 0 {
				partial = true
				fw.Sleep(ms(s.Wait))
			} else {
				receive(s.Shard%max(1, c.Shards), when)
			}
			partial = partial || time.Since(start) >= ms(c.Timeout)
			look(when)
		}
		// now take everything
		for idle := 0; idle < 3 && delivered < c.N; {
			some := false
			for k := range next {
				fw.Settle()
				for receive(k, "while taking everything") {
					some = true
					fw.Settle()
				}
			}
			if !some {
				idle++
				fw.Sleep(ms(c.Timeout + 1))
			} else {
				idle = 0
			}
		}
		partial = true
		look("at the end")
		if acc := int(accepted.Load()); acc != c.N || delivered != c.N {
			e.Fail("%d of %d items were accepted and %d delivered although everything that came was received (%+v)", acc, c.N, delivered, c.brief())
		}
		s, qi, qo := sizes()
		if n := slices.Max(append(s, qi, qo)); n != 0 {
			e.Fail("Sizes is %v %d %d when everything was delivered", s, qi, qo)
		}
		e.LabelIf(blocked, "the producer had to wait")
		e.LabelIf(c.Defaults, "default sizes")
		e.NonTrivial(blocked)
		cancel()
		wg.Wait()
		e.NoStrays("when the context is over")
	})
}

func (c qCase) brief() string {
	return fmt.Sprintf("%s, chunk size %d, buffers %d in, %d out, %d shards", c.Kind, c.Size, c.In, c.Out, c.Shards)
}

func init() {
	fw.Add("C55", "queues", "the producer had to wait for room", genQueue, runQueue, []fw.Run{fw.Plain(2500), fw.Sched(600)})
}
