package wait

import (
	"context"
	"errors"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
)

func runIntimeHolder(e *fw.Env, c fw.InTimeCase) {
	own := errors.New("own")
	fw.PlayInTime(e, c, func(ctx context.Context, d time.Duration) (func() any, func() bool, func(any, bool) bool) {
		hm := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(d).WithTTL(time.Hour).Build()
		return func() any { return hm.Wait(1, 10) },
			func() bool {
				if c.Seed%2 == 0 {
					return hm.Release(1) == nil
				}
				return hm.Error(1, own) == nil
			},
			func(x any, answered bool) bool {
				err, _ := x.(error)
				if answered {
					return c.Seed%2 == 0 && err == nil || c.Seed%2 == 1 && err == own
				}
				return err != nil && err != own
			}
	})
}

func runIntimeWait(e *fw.Env, c fw.InTimeCase) {
	fw.PlayInTime(e, c, func(ctx context.Context, d time.Duration) (func() any, func() bool, func(any, bool) bool) {
		wm := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(d).WithResponseTtl(time.Hour).Build()
		return func() any { return wm.Wait(1) },
			func() bool {
				if c.Cancel && wm.Count() == 0 {
					return false
				}
				wm.Set(1, 10)
				return true
			},
			func(x any, answered bool) bool { return answered && x == 10 || !answered && x == 0 }
	})
}

func init() {
	runs := []fw.Run{fw.Plain(150), fw.Sched(800), fw.Race(150)}
	fw.Add("C46", "in-time", "an answer came before the first timeout", fw.GenInTime, runIntimeWait, runs, fw.RealTime(), fw.Reps(10))
	fw.Add("C49", "in-time", "an outcome came before the first timeout", fw.GenInTime, runIntimeHolder, runs, fw.RealTime(), fw.Reps(10))
}
