package req

import (
	"context"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
)

func runIntimeResponse(e *fw.Env, c fw.InTimeCase) {
	c.Cancel = false // the end of the context has no say in the waits
	fw.PlayInTime(e, c, func(ctx context.Context, d time.Duration) (func() any, func() bool, func(any, bool) bool) {
		rm := collections.NewResponseMap[int, int](ctx).WithResponseTimeout(d).WithClearTimeout(time.Hour).Build()
		return func() any { return rm.Wait(1) },
			func() bool { rm.Set(1, 10); return true },
			func(x any, answered bool) bool { return answered && x == 10 || !answered && x == 0 }
	})
}

func init() {
	fw.Add("C43", "in-time", "an answer came before the first timeout", fw.GenInTime, runIntimeResponse,
		[]fw.Run{fw.Plain(150), fw.Sched(800), fw.Race(150)}, fw.RealTime(), fw.Reps(10))
}
