package req

import (
	"context"
	"fmt"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"github.com/rs/zerolog"
)

func runCrowdRequest(e *fw.Env, c fw.CrowdCase) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		m := collections.NewRequestMap[int, any](ctx, time.Hour)
		var mu sync.Mutex
		calls := map[int]int{}
		fw.Crowd(e, c, true, func(k, comes int, v any) any {
			f := func(kk int) (any, error) {
				mu.Lock()
				calls[kk]++
				mu.Unlock()
				time.Sleep(time.Duration(comes) * time.Millisecond)
				return v, nil
			}
			if (int(c.Seed)+k)%2 == 0 {
				return m.GetOrCreate(k, func(kk int) any { v, _ := f(kk); return v })
			}
			got, err := m.GetOrCreateWithErr(k, f)
			if err != nil {
				e.Fail("GetOrCreateWithErr(%d) of a function that succeeds returned the error %v", k, err)
			}
			return got
		}, nil, nil)
		for k := range c.Keys {
			if calls[k] != 1 {
				e.Fail("the function of key %d, one of %d, ran %d times", k, c.Keys, calls[k])
			}
		}
		if n := m.Count(); n != c.Keys {
			e.Fail("Count is %d after %d keys were requested", n, c.Keys)
		}
	})
}

func runCrowdResponse(e *fw.Env, c fw.CrowdCase) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		m := collections.NewResponseMap[int, any](ctx).WithLogger(zerolog.Nop()).
			WithResponseTimeout(fw.CrowdTimeout * time.Millisecond).WithClearTimeout(time.Hour).Build()
		fw.Crowd(e, c, false, func(k, _ int, _ any) any { return m.Wait(k) }, func(k int, v any) { m.Set(k, v) },
			func(k int, got any) string {
				if got != nil {
					return fmt.Sprintf("got %s", fw.ShowOdd(got))
				}
				return ""
			})
	})
}

func init() {
	const rule = "more than thirty waits"
	fw.Add("C38", "crowd", rule, fw.GenCrowd, runCrowdRequest, []fw.Run{fw.Plain(400), fw.Sched(100), fw.Race(60)})
	fw.Add("C41", "crowd", rule, fw.GenCrowd, runCrowdResponse, []fw.Run{fw.Plain(400), fw.Sched(100), fw.Race(60)})
}
