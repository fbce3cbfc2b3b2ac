package req

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"

	"pgregory.net/rapid"
)

// One function made by Timeout serves many calls: some at once, some long after
// it was made, for equal and for different keys, directly or as the request
// function of its map or of another one. Each call has the whole timeout and
// its own result.

type wrapCall struct {
	At  int  `json:"at"` // virtual ms
	K   int  `json:"k"`
	Fn  int  `json:"fn,omitempty"` // which of the wrapped functions
	Dur int  `json:"dur"`          // how long the inner function takes for this call's argument
	Err bool `json:"err,omitempty"`
	Map bool `json:"map,omitempty"` // through GetOrCreateWithErr, under a key nobody else uses
}
type wrapCase struct {
	TO     []int      `json:"to"` // timeouts of the wrapped functions, ms
	Calls  []wrapCall `json:"calls"`
	Cancel int        `json:"cancel,omitempty"` // the map's context ends; the wrapped functions do not care
}

func genWrap(t *rapid.T) wrapCase {
	c := wrapCase{TO: rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 5, 40, 300}), 1, 3).Draw(t, "to")}
	c.Calls = fw.Ops(t, "calls", 1, 30, rapid.Custom(func(t *rapid.T) wrapCall {
		x := wrapCall{
			At: rapid.SampledFrom([]int{0, 0, 1, 4, 5, 39, 40, 41, 299, 300, 301, 1000, 5000}).Draw(t, "at") + rapid.IntRange(0, 2).Draw(t, "off"),
			K:  rapid.IntRange(0, 3).Draw(t, "k"),
			Fn: rapid.IntRange(0, len(c.TO)-1).Draw(t, "fn"),
		}
		to := c.TO[x.Fn]
		x.Dur = rapid.SampledFrom([]int{0, 0, 1, max(0, to-1), to + 1, to + 3, 2*to + 7}).Draw(t, "dur")
		x.Err = rapid.Bool().Draw(t, "err")
		x.Map = rapid.Bool().Draw(t, "map")
		return x
	}))
	if fw.Pct(t, "cancels", 25) {
		c.Cancel = rapid.IntRange(-1, 1000).Draw(t, "cancel")
	}
	return c
}

func runWrap(e *fw.Env, c wrapCase) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if c.Cancel < 0 {
			cancel()
		}
		type arg struct{ N, K int }
		rm := collections.NewRequestMap[arg, string](ctx, time.Hour)
		errs := map[arg]error{}
		for n, x := range c.Calls {
			errs[arg{n, x.K}] = fmt.Errorf("error of call %d", n)
		}
		inner := func(a arg) (string, error) {
			x := c.Calls[a.N]
			if x.Dur > 0 {
				time.Sleep(time.Duration(x.Dur) * time.Millisecond)
			}
			if x.Err {
				return fmt.Sprint("bad ", a), errs[a]
			}
			return fmt.Sprint("good ", a), nil
		}
		var fns []func(arg) (string, error)
		for _, to := range c.TO {
			fns = append(fns, rm.Timeout(time.Duration(to)*time.Millisecond, inner))
		}
		start := time.Now()
		now := func() int { return int(time.Since(start) / time.Millisecond) }
		var wg sync.WaitGroup
		used := make([]int, len(c.TO))
		for n, x := range c.Calls {
			used[x.Fn]++
			e.NonTrivial(used[x.Fn] > 1)
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(x.At) * time.Millisecond)
				a, to := arg{n, x.K}, c.TO[x.Fn]
				t0 := now()
				var v string
				var err error
				if x.Map {
					v, err = rm.GetOrCreateWithErr(a, fns[x.Fn])
				} else {
					v, err = fns[x.Fn](a)
				}
				took := now() - t0
				what := fmt.Sprintf("call %d of a function made with Timeout(%d ms) at 0 ms and called at %d ms, of an inner function that takes %d ms", n, to, t0, x.Dur)
				wv, we := fmt.Sprint("good ", a), error(nil)
				if x.Err {
					wv, we = fmt.Sprint("bad ", a), errs[a]
				}
				inTime := took == x.Dur && x.Dur <= to && v == wv && err == we
				late := took == to && x.Dur >= to && v == "" && errors.Is(err, collections.ErrTimeout)
				if !inTime && !late {
					e.Report("%s: returned %q, %v after %d ms", what, v, err, took)
				}
				e.LabelIf(late, "timed out")
			}()
		}
		if c.Cancel > 0 {
			go func() {
				time.Sleep(time.Duration(c.Cancel) * time.Millisecond)
				cancel()
			}()
		}
		wg.Wait()
		cancel()
	})
}

func init() {
	fw.Add("C40", "wrapped", "one wrapped function serves at least two calls", genWrap, runWrap, []fw.Run{fw.Plain(2500), fw.Race(300)})
}
