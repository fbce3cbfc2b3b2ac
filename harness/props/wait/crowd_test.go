package wait

import (
	"context"
	"fmt"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
)

func runCrowdWait(e *fw.Env, c fw.CrowdCase) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		m := collections.NewWaitMap[int, any]().WithContext(ctx).
			WithRequestTimeout(fw.CrowdTimeout * time.Millisecond).WithResponseTtl(time.Hour).Build()
		fw.Crowd(e, c, false, func(k, _ int, _ any) any { return m.Wait(k) }, func(k int, v any) { m.Set(k, v) },
			func(k int, got any) string {
				if got != nil {
					return fmt.Sprintf("got %s", fw.ShowOdd(got))
				}
				return ""
			})
		if n := m.Count(); n != c.Keys {
			e.Fail("Count is %d when %d keys have their value", n, c.Keys)
		}
	})
}

type crowdErr struct{ k int }

func (c *crowdErr) Error() string { return fmt.Sprintf("outcome of key %d", c.k) }

func runCrowdHolder(e *fw.Env, c fw.CrowdCase) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		m := collections.NewHolderMap[int, any]().WithContext(ctx).
			WithTimeout(fw.CrowdTimeout * time.Millisecond).WithTTL(time.Hour).Build()
		errs := make([]error, c.Keys)
		for k := range errs {
			if k%3 > 0 {
				errs[k] = &crowdErr{k}
			}
		}
		fw.Crowd(e, c, true, func(k, _ int, v any) any {
			err := m.Wait(k, v)
			o, gerr := m.Get(k)
			if !fw.SameOdd(o, v) || gerr != err {
				e.Fail("Wait(%d, %s) returned %v; then Get(%d) = %s, %v", k, fw.ShowOdd(v), err, k, fw.ShowOdd(o), gerr)
			}
			if err == errs[k] {
				return v
			}
			return err
		}, func(k int, v any) {
			var err error
			if errs[k] == nil {
				err = m.Release(k)
			} else {
				err = m.Error(k, errs[k])
			}
			if err != nil {
				e.Fail("key %d is waited for, and giving it its outcome returned %v", k, err)
			}
		}, func(k int, got any) string {
			err, ok := got.(error)
			if !ok || err == nil || errs[k] != nil && err == errs[k] {
				return fmt.Sprintf("got %s", fw.ShowOdd(got))
			}
			return ""
		})
		if n := m.Count(); n != c.Keys {
			e.Fail("Count is %d when %d keys are held", n, c.Keys)
		}
	})
}

func init() {
	const rule = "more than thirty waits"
	fw.Add("C44", "crowd", rule, fw.GenCrowd, runCrowdWait, []fw.Run{fw.Plain(400), fw.Sched(100), fw.Race(60)})
	fw.Add("C47", "crowd", rule, fw.GenCrowd, runCrowdHolder, []fw.Run{fw.Plain(400), fw.Sched(100), fw.Race(60)})
}
