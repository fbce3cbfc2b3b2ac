package req

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"github.com/rs/zerolog"
	"pgregory.net/rapid"
)

// C41, C42, C43: ResponseMap.

// A key is used in rounds. Its entry lives at least the clear timeout from its
// first use and is gone after twice that, so all uses of a round happen within
// the clear timeout, and the next round begins when none of it can be left.
type respAct struct {
	Round int  `json:"r,omitempty"`
	At    int  `json:"at"` // ms within the round
	K     int  `json:"k"`
	Set   bool `json:"set,omitempty"`
}
type respCase struct {
	Idle   bool      `json:"idle,omitempty"` // the rounds are far apart
	RT     int       `json:"rt"`             // response timeout in ms; half a ms is added
	CT     int       `json:"ct"`             // clear timeout in ms
	Def    bool      `json:"def,omitempty"`
	Acts   []respAct `json:"acts"`
	Cancel int       `json:"cancel,omitempty"`
}

func genResp(focus string) func(*rapid.T) respCase {
	return func(t *rapid.T) respCase {
		c := respCase{RT: rapid.SampledFrom([]int{5, 20, 100}).Draw(t, "rt"), CT: rapid.SampledFrom([]int{10, 40, 300}).Draw(t, "ct")}
		rounds := 3
		if focus == "ctx" {
			rounds = 0
		}
		if focus == "deliver" {
			c.RT, c.CT, rounds = 1000, 1000, 0
		}
		if fw.Pct(t, "defaults", 8) {
			c.Def, c.RT, c.CT = true, 100_000, 100_000
		}
		top := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "top")
		span := c.CT - 1
		step := max(1, span/10)
		c.Acts = fw.Ops(t, "acts", 1, 40, rapid.Custom(func(t *rapid.T) respAct {
			return respAct{
				Round: rapid.IntRange(0, rounds).Draw(t, "round"),
				At:    min(span, rapid.IntRange(0, 10).Draw(t, "at")*step+rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "off")),
				K:     rapid.IntRange(0, top).Draw(t, "k"),
				Set:   rapid.IntRange(0, 4).Draw(t, "op") >= 3,
			}
		}))
		c.Idle = rounds > 0 && fw.Pct(t, "idles", 10)
		if focus == "time" && fw.Pct(t, "cancels", 15) {
			c.Cancel = rapid.IntRange(1, 2*c.CT).Draw(t, "cancel")
		}
		if focus == "ctx" {
			c.Cancel = genEnd(t, span)
		}
		return c
	}
}

const us = time.Microsecond

func runResp(focus string) func(*fw.Env, respCase) {
	return func(e *fw.Env, c respCase) {
		e.LeakIsViolation = true
		e.Bubble(func() { runRespIn(e, c, focus) })
	}
}

type wait struct {
	t0, t1 time.Duration
	v      int
}

func runRespIn(e *fw.Env, c respCase, focus string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ms := time.Millisecond
	rt, ct := time.Duration(c.RT)*ms+500*us, time.Duration(c.CT)*ms
	b := collections.NewResponseMap[int, int](ctx).WithLogger(zerolog.Nop())
	if c.Def {
		rt = time.Duration(c.RT) * ms
	} else {
		b = b.WithResponseTimeout(rt).WithClearTimeout(ct)
	}
	if c.Cancel < 0 {
		cancel()
	}
	m := b.Build()
	start := time.Now()
	period := 3*ct + 3*ms // an entry made at the end of a round is gone by then
	if c.Idle {
		period = 300*ct + 3*ms
	}
	type key struct{ r, k int }
	sets, waits := map[key][]wait{}, map[key][]*wait{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	if c.Cancel > 0 {
		go func() {
			time.Sleep(time.Duration(c.Cancel) * ms)
			cancel()
		}()
		e.Label("context cancelled")
	}
	for n, a := range c.Acts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			at := time.Duration(a.Round)*period + time.Duration(a.At)*ms
			time.Sleep(at)
			k := key{a.Round, a.K}
			if a.Set {
				mu.Lock()
				sets[k] = append(sets[k], wait{t0: at, v: n + 1})
				mu.Unlock()
				m.Set(a.K, n+1)
				if took := time.Since(start) - at; took != 0 {
					e.Report("Set of key %d at %v took %v", a.K, at, took)
				}
				return
			}
			w := &wait{t0: at}
			w.v = m.Wait(a.K)
			w.t1 = time.Since(start)
			mu.Lock()
			waits[k] = append(waits[k], w)
			mu.Unlock()
		}()
	}
	wg.Wait()
	if focus == "ctx" {
		fw.Sleep(time.Duration(c.Cancel)*ms + us - time.Since(start))
		e.NoStrays("after the end of the context and of all calls")
	}
	mu.Lock()
	defer mu.Unlock()
	late, timedOut, shared := false, false, false
	for k, ws := range waits {
		sort.Slice(ws, func(i, j int) bool { return ws[i].t0 < ws[j].t0 })
		ss := sets[k]
		sort.Slice(ss, func(i, j int) bool { return ss[i].t0 < ss[j].t0 })
		created := ws[0].t0
		first := map[int]bool{} // values of the Sets that may be the first
		var s time.Duration = -1
		if len(ss) > 0 {
			s = ss[0].t0
			created = min(created, s)
			for _, x := range ss {
				if x.t0 == s {
					first[x.v] = true
				}
			}
			shared = shared || len(ws) > 1 && ws[0].t0 < s
			late = late || len(ss) > 1
		}
		if c.Cancel > 0 && focus != "ctx" {
			// who was waiting still returns, in time and with nothing wrong
			all := map[int]bool{0: true}
			for kk, ss := range sets {
				for _, x := range ss {
					if kk.k == k.k {
						all[x.v] = true
					}
				}
			}
			for _, w := range ws {
				if w.t1 > w.t0+rt || !all[w.v] {
					e.Fail("context cancelled at %d ms: Wait(%d) at %v returned %d at %v; response timeout %v", c.Cancel, k.k, w.t0, w.v, w.t1, rt)
				}
			}
			continue
		}
		// the waiters that are there together time out together
		var deadline time.Duration = -1
		got := map[int]bool{}
		for _, w := range ws {
			if w.t0 > deadline {
				deadline = w.t0 + rt
			}
			show := func() string {
				return fmt.Sprintf("Wait(%d) at %v returned %d at %v; first used at %v, Set at %v, response timeout %v, clear timeout %v, all waits %v, sets %v", k.k, w.t0, w.v, w.t1, created, s, rt, ct, deref(ws), ss)
			}
			cleared := w.t1 > created+ct && w.t1 <= created+2*ct
			switch {
			case w.v != 0:
				if !first[w.v] {
					e.Fail("not the value of the first Set: %s", show())
				}
				if w.t1 != max(w.t0, s) {
					e.Fail("the value was there earlier: %s", show())
				}
				got[w.v] = true
			case s >= 0 && w.t0 >= s:
				e.Fail("no value after a Set: %s", show())
			case s >= 0 && s < deadline && !(cleared && s > created+ct):
				e.Fail("no value for a waiter at the Set: %s", show())
			case w.t1 > w.t0+rt:
				e.Fail("later than the response timeout: %s", show())
			case w.t1 > created+2*ct && focus != "ctx":
				e.Fail("later than the clear timeout allows: %s", show())
			case w.t1 < deadline && !cleared:
				e.Fail("gave up too early: %s", show())
			default:
				timedOut = true
				e.LabelIf(w.t1 < deadline, "cleared while waiting")
				e.LabelIf(w.t0 > created+rt, "waited again after a timeout")
			}
		}
		if len(got) > 1 {
			e.Fail("waits for key %d in one round returned different values: %v, sets %v", k.k, deref(ws), ss)
		}
	}
	e.LabelIf(late, "set more than once")
	switch focus {
	case "ctx":
		for _, ws := range waits {
			for _, w := range ws {
				e.NonTrivial(w.t1 > time.Duration(c.Cancel)*ms)
			}
		}
	case "deliver":
		e.NonTrivial(shared)
	default:
		e.NonTrivial(timedOut)
	}
}

func deref(ws []*wait) (out []wait) {
	for _, w := range ws {
		out = append(out, *w)
	}
	return
}

// C43: goroutines that really run at once

type wop struct {
	Set bool `json:"set,omitempty"`
	K   int  `json:"k"`
	V   int  `json:"v,omitempty"`
}

func (o wop) String() string {
	if o.Set {
		return fmt.Sprintf("Set(%d, %d)", o.K, o.V)
	}
	return fmt.Sprintf("Wait(%d)", o.K)
}

type respConc struct {
	RT  int     `json:"rt"`
	CT  int     `json:"ct"`
	Thr [][]wop `json:"thr"`
}

func genRespConc(t *rapid.T) respConc {
	c := respConc{RT: 1000, CT: 1000}
	top := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "top")
	n := 0
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) wop {
		n++
		o := wop{Set: rapid.IntRange(0, 2).Draw(t, "op") == 2, K: rapid.IntRange(0, top).Draw(t, "k")}
		if o.Set {
			o.V = n
		}
		return o
	}), 1, 6), 2, 6).Draw(t, "thr")
	// a last goroutine sets every key, so that no Wait is left alone
	last := []wop{}
	for k := 0; k <= top; k++ {
		last = append(last, wop{Set: true, K: k, V: 1000 + k})
	}
	c.Thr = append(c.Thr, last)
	return c
}

func runRespConc(e *fw.Env, c respConc) {
	fw.Repeat(e, 2, func() {
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			m := collections.NewResponseMap[int, int](ctx).WithLogger(zerolog.Nop()).
				WithResponseTimeout(time.Duration(c.RT) * time.Millisecond).WithClearTimeout(time.Duration(c.CT) * time.Millisecond).Build()
			ex := func(_ int, o wop) any {
				if o.Set {
					m.Set(o.K, o.V)
					return nil
				}
				return m.Wait(o.K)
			}
			hist := fw.Threads(c.Thr, ex)
			e.NonTrivial(fw.Overlaps(hist) > 0)
			var fin []wop
			for _, o := range c.Thr[len(c.Thr)-1] {
				fin = append(fin, wop{K: o.K})
			}
			hist = append(hist, fw.Threads([][]wop{fin, fin}, ex)...)
			fw.Linearizable(e, "", func(st string, o wop, out any) (bool, string) {
				if o.Set {
					if st == "" {
						return true, fmt.Sprint(o.V)
					}
					return true, st
				}
				return fmt.Sprint(out) == st, st
			}, func(o wop) string { return fmt.Sprint(o.K) }, hist)
		})
	})
}

// churn: waits, sets, timeouts and clearing all at the same instants

type churnAct struct {
	At int `json:"at"`
	wop
}
type respChurn struct {
	RT   int        `json:"rt"`
	CT   int        `json:"ct"`
	Acts []churnAct `json:"acts"`
}

func genRespChurn(t *rapid.T) respChurn {
	c := respChurn{RT: rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "rt"), CT: rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "ct")}
	top := rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "top")
	n := 0
	c.Acts = fw.Ops(t, "acts", 2, 60, rapid.Custom(func(t *rapid.T) churnAct {
		n++
		a := churnAct{At: rapid.IntRange(0, 12).Draw(t, "at")}
		a.K = rapid.IntRange(0, top).Draw(t, "k")
		if a.Set = rapid.Bool().Draw(t, "set"); a.Set {
			a.V = n
		}
		return a
	}))
	return c
}

func runRespChurn(e *fw.Env, c respChurn) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		rt, ct := time.Duration(c.RT)*time.Millisecond, time.Duration(c.CT)*time.Millisecond
		m := collections.NewResponseMap[int, int](ctx).WithLogger(zerolog.Nop()).WithResponseTimeout(rt).WithClearTimeout(ct).Build()
		start := time.Now()
		var wg sync.WaitGroup
		setAt := map[[2]int]time.Duration{}
		for _, a := range c.Acts {
			if a.Set {
				setAt[[2]int{a.K, a.V}] = time.Duration(a.At) * time.Millisecond
			}
		}
		for _, a := range c.Acts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(a.At) * time.Millisecond)
				t0 := time.Since(start)
				if a.Set {
					m.Set(a.K, a.V)
					if d := time.Since(start) - t0; d > 0 {
						e.Report("Set(%d) took %v", a.K, d)
					}
					return
				}
				v := m.Wait(a.K)
				t1 := time.Since(start)
				if t1 > t0+rt {
					e.Report("Wait(%d) took %v with a response timeout of %v", a.K, t1-t0, rt)
				}
				if v == 0 {
					timeout, clear := false, false
					for _, x := range c.Acts {
						at := time.Duration(x.At) * time.Millisecond
						if x.K != a.K {
							continue
						}
						if x.Set && t0 < at && at < t1 {
							e.Report("Wait(%d) at %v returned 0 at %v, although %d was set at %v", a.K, t0, t1, x.V, at)
						}
						timeout = timeout || !x.Set && at <= t0 && at+rt == t1
						clear = clear || t1%ct == 0 && at+ct < t1
					}
					if !timeout && !clear {
						e.Report("Wait(%d) at %v gave up at %v, when there was no reason to; timeout %v, clear timeout %v", a.K, t0, t1, rt, ct)
					}
					return
				}
				s, ok := setAt[[2]int{a.K, v}]
				if !ok || s > t1 {
					e.Report("Wait(%d) returned %d at %v, which nobody had set", a.K, v, t1)
				} else if s < t0 && t0-s > 2*ct {
					e.Report("Wait(%d) at %v returned %d, set at %v; entries are cleared after %v at the latest", a.K, t0, v, s, 2*ct)
				} else if t1 != max(t0, s) {
					e.Report("Wait(%d) at %v returned %d, set at %v, only at %v", a.K, t0, v, s, t1)
				}
			}()
		}
		wg.Wait()
		e.NonTrivial(len(setAt) > 0 && len(setAt) < len(c.Acts))
	})
}

func init() {
	fw.Add("C41", "delivery", "several waiters were there before the Set", genResp("deliver"), runResp("deliver"),
		[]fw.Run{fw.Plain(2000), fw.Sched(600), fw.Race(300)}, fw.Reps(5))
	fw.Add("C41", "together", "operations of different goroutines overlapped", genRespConc, runRespConc, []fw.Run{fw.Plain(400), fw.Sched(800)}, fw.Reps(20))
	fw.Add("C42", "timeouts", "a Wait ended without value", genResp("time"), runResp("time"),
		[]fw.Run{fw.Plain(2500), fw.Sched(600), fw.Race(300)}, fw.Reps(5))
	fw.Add("C43", "linearizable", "operations of different goroutines overlapped", genRespConc, runRespConc,
		[]fw.Run{fw.Plain(800), fw.Sched(1200), fw.Race(500)}, fw.Reps(20))
	fw.Add("C43", "churn", "a case with sets and waits", genRespChurn, runRespChurn,
		[]fw.Run{fw.Plain(600), fw.Sched(800), fw.Race(500)}, fw.Reps(20))
}
