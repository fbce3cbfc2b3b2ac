package chans

import (
	"context"
	"time"

	"axverif/fw"

	"pgregory.net/rapid"
)

// ------------------------------------------- C02, C04: a consumer that comes late

// lateCase: groups of items that do not fill a chunk, more than a timeout apart,
// while nobody receives; then somebody comes.
type lateComer struct {
	Size    int    `json:"size"`
	Timeout int    `json:"timeout"` // ms
	OutBuf  int    `json:"out"`
	Shards  int    `json:"shards,omitempty"`
	How     string `json:"how"`
	Groups  []int  `json:"groups"` // how many items
	Gaps    []int  `json:"gaps"`   // thousandths of the timeout, on top of it
	Wait    int    `json:"wait"`
	Again   int    `json:"again"` // so many groups after that, with the consumer there
}

func genLateComer(shards bool) func(t *rapid.T) lateComer {
	return func(t *rapid.T) lateComer {
		c := lateComer{
			Size:    rapid.SampledFrom([]int{2, 3, 10, 100, 5000}).Draw(t, "size"),
			Timeout: rapid.SampledFrom([]int{1, 5, 50, 1000, 60000}).Draw(t, "timeout"),
			OutBuf:  rapid.SampledFrom([]int{0, 0, 1, 2, 5, 100}).Draw(t, "out"),
			How:     rapid.SampledFrom([]string{"add", "incoming", "user"}).Draw(t, "how"),
			Wait:    rapid.SampledFrom([]int{1, 300, 999, 1400, 7777}).Draw(t, "wait"),
			Again:   rapid.IntRange(0, 2).Draw(t, "again"),
		}
		if shards {
			c.Shards = rapid.SampledFrom([]int{1, 2, 7}).Draw(t, "shards")
			c.How = "user"
		}
		n := rapid.IntRange(1, min(c.OutBuf+1, 6)).Draw(t, "groups")
		for range n + c.Again {
			c.Groups = append(c.Groups, rapid.IntRange(1, min(c.Size-1, 12)).Draw(t, "n"))
			c.Gaps = append(c.Gaps, rapid.SampledFrom([]int{1, 7, 250, 501, 3003}).Draw(t, "gap"))
		}
		return c
	}
}

func runLateComer(kind string) func(*fw.Env, lateComer) {
	return func(e *fw.Env, c lateComer) {
		timeout := ms(c.Timeout)
		part := func(n int) time.Duration { return timeout * time.Duration(n) / 1000 }
		n := len(c.Groups) - c.Again
		e.NonTrivial(n > c.OutBuf)
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			tg := build(e, chanCase{Size: c.Size, Timeout: c.Timeout, InBuf: 1000, OutBuf: c.OutBuf, Shards: c.Shards, How: c.How, NoCons: true},
				kind, ctx, &recorder{}, func(int) {})
			got := map[item]int{}
			drain := func() {
				for more := true; more; {
					fw.Settle()
					more = false
					for _, ch := range tg.out {
						select {
						case x := <-ch:
							more = true
							for _, it := range x {
								got[it]++
							}
						default:
						}
					}
				}
			}
			// every group goes to one shard, as many as fit before anyone comes
			var all []item
			send := func(g int) {
				fw.Sleep(timeout + part(c.Gaps[g]))
				for i := range c.Groups[g] {
					it := item{g, i, 3}
					all = append(all, it)
					if c.How == "add" && tg.add != nil {
						tg.add(it)
					} else {
						tg.in <- it
					}
				}
			}
			for g := range n {
				send(g)
			}
			fw.Sleep(timeout + part(c.Wait))
			drain()
			for _, it := range all {
				if got[it] != 1 {
					e.Fail("item %d of group %d was sent at least a timeout of %v ago; the consumer that came now got it %d times", it.S, it.P, timeout, got[it])
				}
			}
			for g := n; g < len(c.Groups); g++ {
				send(g)
				fw.Sleep(timeout + part(c.Gaps[g]))
				drain()
				for _, it := range all {
					if got[it] != 1 {
						e.Fail("item %d of group %d, sent after a consumer had come: delivered %d times within more than a timeout of %v", it.S, it.P, got[it], timeout)
					}
				}
			}
		})
	}
}

// ------------------------------------------------- C05: the end comes at once

type onceCase struct {
	Size    int    `json:"size"`
	Timeout int    `json:"timeout"` // ms
	InBuf   int    `json:"in"`
	OutBuf  int    `json:"out"`
	Shards  int    `json:"shards,omitempty"`
	How     string `json:"how"`
	Func    bool   `json:"func,omitempty"`
	Prods   []int  `json:"prods"` // how many items each sends
	Reads   int    `json:"reads"` // so many are received before
	At      int    `json:"at"`    // thousandths of the timeout
	Late    int    `json:"late"`
	Closed  bool   `json:"closed,omitempty"` // the incoming channel was closed before
}

func genOnce(kind string) func(t *rapid.T) onceCase {
	return func(t *rapid.T) onceCase {
		c := onceCase{
			Size:    rapid.SampledFrom([]int{1, 2, 3, 10, 100}).Draw(t, "size"),
			Timeout: rapid.SampledFrom([]int{1, 50, 60_000, 36_000_000}).Draw(t, "timeout"),
			InBuf:   rapid.SampledFrom([]int{0, 1, 10, 1000}).Draw(t, "in"),
			OutBuf:  rapid.SampledFrom([]int{0, 1, 3, 100}).Draw(t, "out"),
			How:     rapid.SampledFrom([]string{"add", "incoming", "user"}).Draw(t, "how"),
			Func:    fw.Pct(t, "func", 30),
			Prods:   rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 7, 30, 300}), 0, 3).Draw(t, "prods"),
			Reads:   rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "reads"),
			At:      rapid.SampledFrom([]int{0, 0, 1, 700, 1500}).Draw(t, "at"),
			Late:    rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "late"),
		}
		if kind != "chunk" {
			c.Shards = rapid.SampledFrom([]int{1, 2, 5, 20}).Draw(t, "shards")
		}
		if kind == "shardchunk" {
			c.How = "user"
		}
		c.Closed = c.How == "user" && fw.Pct(t, "closed", 20)
		return c
	}
}

func runOnce(kind string) func(*fw.Env, onceCase) {
	return func(e *fw.Env, c onceCase) {
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			tg := build(e, chanCase{Size: c.Size, Timeout: c.Timeout, InBuf: c.InBuf, OutBuf: c.OutBuf, Shards: c.Shards, How: c.How, Func: c.Func},
				kind, ctx, &recorder{}, func(int) {})
			send := func(x item) {
				if c.How == "add" && tg.add != nil {
					tg.add(x)
					return
				}
				select {
				case tg.in <- x:
				case <-ctx.Done():
				}
			}
			sent := 0
			if c.Closed { // one goroutine, so that nobody sends on it afterwards
				for p, n := range c.Prods {
					for i := range min(n, c.InBuf) {
						select {
						case tg.in <- item{p, i, i}:
							sent++
						default:
						}
					}
				}
				close(tg.in)
			} else {
				for p, n := range c.Prods {
					sent += n
					go func() {
						for i := range n {
							send(item{p, i, i})
						}
					}()
				}
			}
			for range c.Reads {
				fw.Settle()
				for _, ch := range tg.out {
					select {
					case <-ch:
					default:
					}
				}
				for _, ch := range tg.outS {
					select {
					case <-ch:
					default:
					}
				}
			}
			fw.Sleep(ms(c.Timeout) / 1000 * time.Duration(c.At))
			fw.Settle()
			queued := tg.sizes()
			e.LabelIf(queued > 0, "items queued at cancellation")
			e.LabelIf(c.Closed, "incoming channel closed before")
			e.NonTrivial(sent > 0)
			now := time.Now()
			cancel()
			e.NoStrays("when the context is over")
			if !c.Closed {
				for i := range c.Late {
					send(item{9, i, i})
				}
			}
			if d := time.Since(now); d != 0 {
				e.Fail("the end and %d late items took %v", c.Late, d)
			}
			e.NoStrays("after items were added to what is over")
		})
	}
}

func init() {
	rule := "a chunk was due with nobody there and no room for it"
	fw.Add("C02", "late-consumer", rule, genLateComer(false), runLateComer("chunk"), []fw.Run{fw.Plain(2500), fw.Sched(300)})
	fw.Add("C04", "late-consumer", rule, genLateComer(true), runLateComer("shardchunk"), []fw.Run{fw.Plain(1500), fw.Sched(200)})
	for _, k := range []string{"chunk", "shard", "shardchunk"} {
		fw.Add("C05", "at-once-"+k, "items had been sent", genOnce(k), runOnce(k), []fw.Run{fw.Plain(2500), fw.Sched(400), fw.Race(100)})
	}
}
