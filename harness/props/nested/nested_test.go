package nested

import (
	"context"
	"fmt"
	"slices"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/flow"
	"github.com/axgrid/axutils/workers"
	"pgregory.net/rapid"
)

// C58: a function given to an object may use that very object. Item i is handed
// in by the function that is called for its parent.

type item struct {
	Parent int `json:"p"`            // -1: handed in from outside
	Form   int `json:"f,omitempty"`  // which of several equivalent calls
	At     int `json:"at,omitempty"` // ms, for those from outside
}
type nestCase struct {
	Kind    string `json:"kind"`
	Items   []item `json:"items"`
	Size    int    `json:"size"`    // chunk size, shards, workers or maximum count
	Timeout int    `json:"timeout"` // ms
	Out     int    `json:"out"`     // outgoing buffer
	Lock    bool   `json:"lock,omitempty"`
}

func genNest(t *rapid.T) nestCase {
	c := nestCase{
		Kind:    rapid.SampledFrom([]string{"chunk", "shard", "shardchunk", "runner", "request", "load", "update", "unload", "processor"}).Draw(t, "kind"),
		Size:    rapid.IntRange(1, 5).Draw(t, "size"),
		Timeout: rapid.SampledFrom([]int{1, 3, 10}).Draw(t, "timeout"),
		Out:     rapid.SampledFrom([]int{0, 1, 3, 100}).Draw(t, "out"),
		Lock:    rapid.Bool().Draw(t, "lock"),
	}
	roots := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "roots")
	deep := rapid.Bool().Draw(t, "deep")
	n := rapid.SampledFrom([]int{3, 8, 30, 80}).Draw(t, "n")
	i := -1
	c.Items = fw.Ops(t, "items", 1, n, rapid.Custom(func(t *rapid.T) item {
		i++
		x := item{Parent: -1, Form: rapid.IntRange(0, 2).Draw(t, "form"), At: rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(t, "at")}
		if i >= roots {
			if x.Parent = rapid.IntRange(0, i-1).Draw(t, "parent"); deep {
				x.Parent = max(x.Parent, i-1-rapid.IntRange(0, 2).Draw(t, "near"))
			}
		}
		return x
	}))
	// shrinking drops items from the front
	for i := range c.Items {
		c.Items[i].Parent = min(c.Items[i].Parent, i-1)
	}
	return c
}

func runNest(e *fw.Env, c nestCase) {
	e.Label(c.Kind)
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		kids := map[int][]int{}
		sum := make([]int, len(c.Items)) // items in the tree of each
		depth, deepest := make([]int, len(c.Items)), 0
		for i := range c.Items {
			kids[c.Items[i].Parent] = append(kids[c.Items[i].Parent], i)
			if p := c.Items[i].Parent; p >= 0 {
				depth[i] = depth[p] + 1
				deepest = max(deepest, depth[i])
			}
		}
		for i := len(c.Items) - 1; i >= 0; i-- {
			if sum[i]++; c.Items[i].Parent >= 0 {
				sum[c.Items[i].Parent] += sum[i]
			}
		}
		e.NonTrivial(deepest > 0)
		n := len(c.Items)
		timeout := time.Duration(c.Timeout) * time.Millisecond
		var mu sync.Mutex
		var seen []int
		note := func(i int) {
			mu.Lock()
			defer mu.Unlock()
			seen = append(seen, i)
		}
		// roots hands in the items from outside, each at its time, and waits until all is done
		roots := func(add func(i int)) {
			var wg sync.WaitGroup
			for _, i := range kids[-1] {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(c.Items[i].At) * time.Millisecond)
					add(i)
				}()
			}
			fw.Sleep(10*time.Millisecond + time.Duration(deepest+2)*(timeout+time.Millisecond))
			wg.Wait()
			fw.Settle()
		}
		once := func() {
			mu.Lock()
			defer mu.Unlock()
			slices.Sort(seen)
			for i := range n {
				if i >= len(seen) || seen[i] != i {
					e.Fail("%s: of the items 0 to %d, handed in by the functions called for others, these were seen: %v", c.Kind, n-1, seen)
				}
			}
			if len(seen) != n {
				e.Fail("%s: %d items, seen %v", c.Kind, n, seen)
			}
		}
		switch c.Kind {
		case "chunk":
			var ch *chans.ChunkChan[int]
			ready := make(chan struct{})
			ch = chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(c.Size).WithChunkTimeout(timeout).
				WithIncomingBufferSize(n).WithOutgoingBufferSize(c.Out).WithChunkFunc(func(l []int) {
				<-ready
				for _, i := range l {
					note(i)
					for _, k := range kids[i] {
						ch.Add(k)
					}
				}
			}).Build()
			close(ready)
			roots(ch.Add)
			once()
		case "shard":
			var ch *chans.ShardChan[int]
			ready := make(chan struct{})
			var err error
			ch, err = chans.NewShardChan[int]().WithContext(ctx).WithShardCount(c.Size).WithShardFunc(func(i int) int { return i }).
				WithIncomingBufferSize(n).WithOutgoingBufferSize(c.Out).WithWorkerFunc(func(_ int, i int) {
				<-ready
				note(i)
				for _, k := range kids[i] {
					if err := ch.Add(k); err != nil {
						e.Report("Add from the worker function: %v", err)
					}
				}
			}).Build()
			if err != nil {
				e.Fail("%v", err)
			}
			close(ready)
			roots(func(i int) { _ = ch.Add(i) })
			once()
		case "shardchunk":
			in := make(chan int, n)
			_, err := chans.NewShardChunk[int]().WithContext(ctx).WithShardCount(c.Size).WithShardFunc(func(i int) int { return i }).
				WithChunkSize(1 + c.Out).WithChunkTimeout(timeout).WithIncomingChan(in).WithIncomingBufferSize(n).WithShardWorker(func(_ int, l []int) {
				for _, i := range l {
					note(i)
					for _, k := range kids[i] {
						in <- k
					}
				}
			}).Build()
			if err != nil {
				e.Fail("%v", err)
			}
			roots(func(i int) { in <- i })
			once()
		case "runner":
			r := workers.NewRunner().WithContext(ctx).WithWorkerCount(c.Size).Build()
			var add func(i int)
			add = func(i int) {
				do := func() {
					note(i)
					for _, k := range kids[i] {
						add(k)
					}
				}
				if c.Items[i].Form == 0 {
					r.RunWithContext(func(context.Context) { do() })
				} else {
					r.Run(do)
				}
			}
			roots(add)
			once()
		case "request":
			rm := collections.NewRequestMap[int, int](ctx, time.Hour)
			var get func(i int) int
			fetch := func(i int) int {
				note(i)
				res := 1
				for _, k := range kids[i] {
					res += get(k)
				}
				return res
			}
			get = func(i int) int {
				if c.Items[i].Form == 0 {
					return rm.GetOrCreate(i, fetch)
				}
				f := func(i int) (int, error) { return fetch(i), nil }
				if c.Items[i].Form == 1 {
					f = rm.Timeout(time.Minute, f)
				}
				v, err := rm.GetOrCreateWithErr(i, f)
				if err != nil {
					e.Report("request of key %d: %v", i, err)
				}
				return v
			}
			roots(func(i int) {
				if got := get(i); got != sum[i] {
					e.Report("the request functions of key %d request others; the result is %d, want %d", i, got, sum[i])
				}
			})
			once()
			if rm.Count() != n {
				e.Fail("Count = %d after requests of %d keys", rm.Count(), n)
			}
		case "load":
			var m *collections.GuavaMap[int, int]
			b := collections.NewGuavaMap[int, int]().WithContext(ctx).WithLoadFunc(func(i int) (int, error) {
				note(i)
				res := 1
				for _, k := range kids[i] {
					v, err := m.Get(k)
					if err != nil {
						return 0, err
					}
					res += v
				}
				return res, nil
			})
			if c.Lock {
				b = b.WithLockLoad(true)
			}
			m = b.Build()
			roots(func(i int) {
				if got, err := m.Get(i); err != nil || got != sum[i] {
					e.Report("the load function of key %d gets others; the result is %d, %v, want %d", i, got, err, sum[i])
				}
			})
			once()
		case "update":
			m := collections.NewGuavaMap[int, int]().WithContext(ctx).Build()
			var update func(i int) int
			update = func(i int) int {
				return m.LockForUpdate(i, func() int {
					note(i)
					res := 1
					for _, k := range kids[i] {
						res += update(k)
					}
					return res
				})
			}
			roots(func(i int) {
				if got := update(i); got != sum[i] {
					e.Report("the update function of key %d updates others; the result is %d, want %d", i, got, sum[i])
				}
			})
			once()
		case "unload":
			var m *collections.GuavaMap[int, int]
			m = collections.NewGuavaMap[int, int]().WithContext(ctx).WithMaxCount(c.Size).WithUnloadFunc(func(i, v int) {
				note(i)
				for _, k := range kids[i] {
					switch c.Items[k].Form {
					case 0:
						m.Set(k, k)
					case 1:
						m.HasOrCreate(k, k)
					case 2:
						m.LockForUpdate(k, func() int { return k })
					}
				}
			}).Build()
			roots(func(i int) { m.Set(i, i) })
			// what is stored leaves now, and what its unload function puts in
			for range deepest + 1 {
				m.Clear()
				fw.Settle()
			}
			once()
			if m.Size() != 0 {
				e.Fail("%d entries after Clear", m.Size())
			}
		case "processor":
			var p func(i, state int) error
			var want, got []int
			var walk func(i int)
			walk = func(i int) {
				want = append(want, i)
				for _, k := range kids[i] {
					walk(k)
				}
				want = append(want, -i)
			}
			before := func(i, state int) error {
				got = append(got, i)
				for _, k := range kids[i] {
					if err := p(k, state+1); err == nil || err.Error() != fmt.Sprint("end ", k, state+1) {
						return fmt.Errorf("processing %d from %d: %v", k, i, err)
					}
				}
				return nil
			}
			b := flow.NewProcessor[int, int]()
			if c.Lock {
				b = b.RouteOn(func(int) bool { return true }, before)
			} else {
				b = b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) {
					r.On(func(i, state int) bool { return before(i, state) == nil })
				})
			}
			p = b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) {
				r.Do(func(i, state int) error { got = append(got, -i); return nil })
				r.Do(func(i, state int) error { return fmt.Errorf("%s", fmt.Sprint("end ", i, state)) })
			}).Build()
			for _, i := range kids[-1] {
				walk(i)
				if err := p(i, 0); err == nil || err.Error() != fmt.Sprint("end ", i, 0) {
					e.Fail("processing %d, whose steps process others: %v", i, err)
				}
			}
			if !slices.Equal(got, want) {
				e.Fail("the processor's steps process other events; order %v, want %v", got, want)
			}
		}
	})
}

func init() {
	fw.Add("C58", "nested", "an item was handed in by the function of another", genNest, runNest, []fw.Run{fw.Plain(6000), fw.Sched(1500), fw.Race(200)})
}
