package req

import (
	"context"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// C57: the end of the context stops the clearing and nothing else.

// genEnd draws when the context ends: before the map is made, or at a ms of the span.
func genEnd(t *rapid.T, span int) int {
	if fw.Pct(t, "before", 15) {
		return -1
	}
	return max(1, span*rapid.IntRange(0, 24).Draw(t, "end")/24+rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "end off"))
}

type ctxOp struct {
	D  int    `json:"d,omitempty"` // ms since the one before
	Op string `json:"op"`
	V  int    `json:"v"`
}
type ctxCase struct {
	TTL   int     `json:"ttl"`
	Every int     `json:"every"`
	Ops   []ctxOp `json:"ops"`
	End   int     `json:"end"`
}

func genCtxUniq(t *rapid.T) ctxCase {
	top := rapid.SampledFrom([]int{1, 3, 9}).Draw(t, "top")
	c := ctxCase{TTL: rapid.SampledFrom([]int{1, 5, 20, 100}).Draw(t, "ttl"), Every: rapid.SampledFrom([]int{1, 4, 20, 100}).Draw(t, "every"),
		Ops: fw.Ops(t, "ops", 1, 40, rapid.Custom(func(t *rapid.T) ctxOp {
			return ctxOp{D: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, 19, 60}).Draw(t, "d"), V: rapid.IntRange(0, top).Draw(t, "v"),
				Op: rapid.SampledFrom([]string{"add", "add", "add", "has", "has", "remove", "count"}).Draw(t, "op")}
		}))}
	span := 0
	for _, o := range c.Ops {
		span += o.D
	}
	c.End = genEnd(t, span)
	return c
}

func runCtxUniq(e *fw.Env, c ctxCase) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if c.End < 0 {
			cancel()
		}
		s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(time.Duration(c.TTL) * time.Millisecond).
			WithCheckInterval(time.Duration(c.Every) * time.Millisecond).Build()
		now, ended := 0, false
		born := map[int]int{}
		end := func() {
			if !ended {
				ended = true
				cancel()
				e.NoStrays("when the context is over")
			}
		}
		if c.End < 0 {
			end()
		}
		old := false
		for n, o := range c.Ops {
			if t := now + o.D; !ended && t >= c.End {
				fw.Sleep(time.Duration(c.End-now) * time.Millisecond)
				end()
				fw.Sleep(time.Duration(t-c.End) * time.Millisecond)
			} else {
				fw.Sleep(time.Duration(o.D) * time.Millisecond)
			}
			now += o.D
			sure := 0
			for _, t := range born {
				if now < t+c.TTL {
					sure++
				}
			}
			if got := s.Count(); got < sure || got > len(born) {
				e.Fail("op %d at %d ms: Count = %d, %d of the %d elements are younger than %d ms; context over: %v", n, now, got, sure, len(born), c.TTL, ended)
			}
			t0, known := born[o.V]
			sureThere := known && now < t0+c.TTL
			var got bool
			var err error
			switch o.Op {
			case "add":
				got, err = s.Add(o.V)
				got = !got
			case "has":
				got, err = s.Has(o.V)
			case "remove":
				got, err = s.Remove(o.V)
			default:
				continue
			}
			if err != nil || got && !known || !got && sureThere {
				e.Fail("op %d at %d ms: %s(%d) says it is there: %v, %v; added at %d ms: %v, lives %d ms, context over: %v", n, now, o.Op, o.V, got, err, t0, known, c.TTL, ended)
			}
			old = old || ended && sureThere
			switch {
			case o.Op == "add" && !got:
				born[o.V] = now
			case o.Op == "remove" || !got:
				delete(born, o.V)
			}
		}
		e.NonTrivial(old)
	})
}

func init() {
	fw.Add("C57", "requests", "a call returned after the end of the context", genReq("ctx"), runReq("ctx"), []fw.Run{fw.Plain(2500), fw.Sched(800), fw.Race(100)})
	fw.Add("C57", "responses", "a Wait returned after the end of the context", genResp("ctx"), runResp("ctx"), []fw.Run{fw.Plain(2500), fw.Sched(800), fw.Race(100)})
	fw.Add("C57", "uniq", "an element was there after the end of the context", genCtxUniq, runCtxUniq, []fw.Run{fw.Plain(2500), fw.Sched(800), fw.Race(100)})
}
