package wait

import (
	"context"
	"math/rand/v2"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// Herds: thousands of keys whose time is over together, or whose context ends.

type herdCase struct {
	Seed   uint64 `json:"seed"`
	Lone   int    `json:"lone"` // keys that are waited for and get no answer
	N      int    `json:"n"`
	Span   int    `json:"span"` // used first within so many ms
	RT     int    `json:"rt"`
	TTL    int    `json:"ttl"`
	Cancel bool   `json:"cancel,omitempty"`
}

func genHerd(t *rapid.T) herdCase {
	return herdCase{Seed: rapid.Uint64().Draw(t, "seed"),
		Lone:   rapid.SampledFrom([]int{0, 1, 10, 120, 300, 1100}).Draw(t, "lone"),
		N:      rapid.SampledFrom([]int{1, 10, 120, 300, 1100, 2500, 6000}).Draw(t, "n"),
		Span:   rapid.SampledFrom([]int{0, 1, 10, 300}).Draw(t, "span"),
		RT:     rapid.SampledFrom([]int{1, 50, 500}).Draw(t, "rt"),
		TTL:    rapid.SampledFrom([]int{1, 100, 1000}).Draw(t, "ttl"),
		Cancel: fw.Pct(t, "cancel", 30)}
}

func runHerd(holder bool) func(*fw.Env, herdCase) {
	return func(e *fw.Env, c herdCase) {
		e.LeakIsViolation = true
		e.Bubble(func() { runHerdIn(e, c, holder) })
	}
}

func runHerdIn(e *fw.Env, c herdCase, holder bool) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rt, ttl := span(c.RT, 500*us), span(c.TTL, 250*us)
	// the answer of a key is 1 for success, 0 for none in time
	var wait, set func(k int) int
	var count func() int
	if holder {
		m := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(rt).WithTTL(ttl).Build()
		wait = func(k int) int {
			if m.Wait(k, k) == nil {
				return 1
			}
			return 0
		}
		set = func(k int) int {
			if err := m.Release(k); err != nil {
				e.Report("Release(%d) of a key that is waited for: %v", k, err)
			}
			return 0
		}
		count = m.Count
	} else {
		m := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(rt).WithResponseTtl(ttl).Build()
		wait = m.Wait
		set = func(k int) int { m.Set(k, 1); return 0 }
		count = m.Count
	}
	start := time.Now()
	r := rand.New(rand.NewPCG(c.Seed, 4))
	n := c.Lone + c.N
	end := time.Duration(c.Span)*ms + rt + ttl + ms
	over := end + time.Hour
	if c.Cancel {
		over = time.Duration(r.Int64N(int64(end)))/ms*ms + 100*us
	}
	type key struct{ from, answer, gone time.Duration }
	keys := make([]key, n)
	var wg sync.WaitGroup
	for k := range keys {
		x := &keys[k]
		x.from = time.Duration(r.IntN(c.Span+1)) * ms
		x.answer = x.from + rt
		v := 0
		if k >= c.Lone {
			v = 1
			x.answer = x.from + time.Duration(r.IntN(c.RT+1))*ms
			if !holder && r.IntN(2) == 0 {
				x.answer = x.from
			}
			x.answer += 10 * us
		}
		x.gone = x.answer + ttl
		if x.from >= over {
			continue
		}
		at := x.answer
		if at >= over {
			at, v = over, 0
		}
		for range 1 + r.IntN(2) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(x.from)
				got := wait(k)
				if t := time.Since(start); got != v || t != at {
					e.Report("key %d of %d: Wait at %v returned %d at %v, want %d at %v (%v for a request, %v for an answer, context over at %v)", k, n, x.from, got, t, v, at, rt, ttl, over)
				}
			}()
		}
		if v == 1 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(x.answer)
				if time.Since(start) < over {
					set(k)
				}
			}()
		}
	}
	look := func() {
		now, want := time.Since(start), 0
		for _, x := range keys {
			if x.from < over && x.from <= now && now < x.gone {
				want++
			}
		}
		if now >= over {
			want = 0
		}
		if got := count(); got != want {
			e.Fail("at %v Count = %d, want %d (%v for a request, %v for an answer, context over at %v)", now, got, want, rt, ttl, over)
		}
	}
	cancelled := false
	for i := 0; i <= 40; i++ {
		t := end*time.Duration(i)/40/ms*ms + 150*us
		if t > over && !cancelled {
			fw.Sleep(over - time.Since(start))
			cancel()
			cancelled = true
			fw.Settle()
			look()
			e.NoStrays("when the context is over")
		}
		fw.Sleep(t - time.Since(start))
		look()
	}
	fw.Sleep(end + time.Second - time.Since(start))
	wg.Wait()
	look()
	e.NonTrivial(n > 20)
}

func init() {
	const rule = "more than twenty keys"
	fw.Add("C45", "herd", rule, genHerd, runHerd(false), []fw.Run{fw.Plain(40)})
	fw.Add("C48", "herd", rule, genHerd, runHerd(true), []fw.Run{fw.Plain(40)})
}
