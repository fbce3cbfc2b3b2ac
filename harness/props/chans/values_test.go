package chans

import (
	"context"
	"fmt"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/chans"
	"pgregory.net/rapid"
)

// Items of every kind: nothing, zero, nil pointers, values that cannot be
// compared. They come through like any other.

type valCase struct {
	Vals   []int `json:"vals"` // numbers of fw.Odd
	Size   int   `json:"size"`
	Buf    int   `json:"buf"`
	Shards int   `json:"shards,omitempty"`
	Add    bool  `json:"add,omitempty"`
	Pause  int   `json:"pause,omitempty"` // ms after every seventh
}

func genValues(shards bool) func(t *rapid.T) valCase {
	return func(t *rapid.T) valCase {
		c := valCase{Vals: rapid.SliceOfN(rapid.IntRange(0, 27), 1, 60).Draw(t, "vals"),
			Size:  rapid.SampledFrom([]int{1, 2, 3, 10}).Draw(t, "size"),
			Buf:   rapid.SampledFrom([]int{0, 1, 100}).Draw(t, "buf"),
			Add:   rapid.Bool().Draw(t, "add"),
			Pause: rapid.SampledFrom([]int{0, 0, 1, 30}).Draw(t, "pause"),
		}
		if shards {
			c.Shards = rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "shards")
		}
		return c
	}
}

func runValues(kind string) func(*fw.Env, valCase) {
	key := func(v any) int { return len(fmt.Sprint(v)) }
	return func(e *fw.Env, c valCase) {
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			user := make(chan any, c.Buf)
			send := func(v any) { user <- v }
			var chunks []chan []any
			var singles []chan any
			switch kind {
			case "chunk":
				x := chans.NewChunkChan[any]().WithContext(ctx).WithChunkSize(c.Size).WithChunkTimeout(ms(20)).WithIncomingChan(user).WithOutgoingBufferSize(c.Buf).Build()
				if c.Add {
					send = x.Add
				}
				chunks = append(chunks, x.C())
			case "shard":
				x, err := chans.NewShardChan[any]().WithContext(ctx).WithShardCount(c.Shards).WithShardFunc(key).WithIncomingChan(user).WithOutgoingBufferSize(c.Buf).Build()
				if err != nil {
					e.Fail("building a sharded channel: %v", err)
				}
				if c.Add {
					send = func(v any) {
						if err := x.Add(v); err != nil {
							e.Report("Add: %v", err)
						}
					}
				}
				for k := range c.Shards {
					singles = append(singles, x.C(k))
				}
			default:
				x, err := chans.NewShardChunk[any]().WithContext(ctx).WithShardCount(c.Shards).WithShardFunc(key).WithIncomingChan(user).WithOutgoingBufferSize(c.Buf).WithChunkSize(c.Size).WithChunkTimeout(ms(20)).Build()
				if err != nil {
					e.Fail("building a sharded chunker: %v", err)
				}
				for k := range c.Shards {
					chunks = append(chunks, x.C(k))
				}
			}
			var mu sync.Mutex
			got := map[int][]any{}
			for k, ch := range chunks {
				go func() {
					for {
						select {
						case <-ctx.Done():
							return
						case x := <-ch:
							mu.Lock()
							got[k] = append(got[k], x...)
							mu.Unlock()
						}
					}
				}()
			}
			for k, ch := range singles {
				go func() {
					for {
						select {
						case <-ctx.Done():
							return
						case x := <-ch:
							mu.Lock()
							got[k] = append(got[k], x)
							mu.Unlock()
						}
					}
				}()
			}
			want := map[int][]any{}
			for i, n := range c.Vals {
				v := fw.Odd(n)
				k := 0
				if c.Shards > 0 {
					k = key(v) % c.Shards
				}
				want[k] = append(want[k], v)
				sent := make(chan struct{})
				go func() {
					defer close(sent)
					select {
					case <-ctx.Done():
						return
					default:
					}
					send(v)
				}()
				select {
				case <-sent:
				case <-time.After(time.Minute):
					// frees what is left by ending the context and reading its channel
					cancel()
					select {
					case <-user:
					case <-sent:
					}
					e.Fail("item %d (%s) is not taken although consumers wait", i, fw.ShowOdd(v))
				}
				if i%7 == 6 {
					time.Sleep(ms(c.Pause))
				}
			}
			fw.Sleep(time.Second)
			mu.Lock()
			defer mu.Unlock()
			for k := range max(1, c.Shards) {
				for i, v := range got[k] {
					if i >= len(want[k]) || !fw.SameOdd(v, want[k][i]) {
						w := "nothing more"
						if i < len(want[k]) {
							w = fw.ShowOdd(want[k][i])
						}
						e.Fail("item %d on shard %d is %s, want %s", i, k, fw.ShowOdd(v), w)
					}
				}
				if len(got[k]) < len(want[k]) {
					e.Fail("%d items of %d came on shard %d; the next is %s", len(got[k]), len(want[k]), k, fw.ShowOdd(want[k][len(got[k])]))
				}
			}
			e.NonTrivial(len(c.Vals) > 1)
		})
	}
}

func init() {
	two := "more than one item is sent"
	fw.Add("C01", "values", two, genValues(false), runValues("chunk"), []fw.Run{fw.Plain(300)})
	fw.Add("C03", "values", two, genValues(true), runValues("shard"), []fw.Run{fw.Plain(300)})
	fw.Add("C04", "values", two, genValues(true), runValues("shardchunk"), []fw.Run{fw.Plain(300)})
}
