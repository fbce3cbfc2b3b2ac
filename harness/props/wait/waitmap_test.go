package wait

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// C44, C45, C46: WaitMap.

const (
	ms = time.Millisecond
	us = time.Microsecond
)

// The timeouts have a fraction of a ms and the acts have not, so that nothing
// but the acts themselves happens at one instant; those run one after the
// other. What every call returns, and when, follows exactly.

type act struct {
	At int    `json:"at"`
	Op string `json:"op"`
	K  int    `json:"k"`
}
type waitCase struct {
	RT     int   `json:"rt"`  // request timeout in ms; half a ms is added
	TTL    int   `json:"ttl"` // response TTL in ms; a quarter is added
	Def    bool  `json:"def,omitempty"`
	Cancel int   `json:"cancel,omitempty"`
	Acts   []act `json:"acts"`
}

// span is so many ms and a fraction; -1 is no time at all.
func span(n int, fraction time.Duration) time.Duration {
	if n < 0 {
		return 0
	}
	return time.Duration(n)*ms + fraction
}

func genWait(focus string) func(*rapid.T) waitCase {
	return func(t *rapid.T) waitCase {
		c := waitCase{RT: rapid.SampledFrom([]int{1, 5, 20, 60}).Draw(t, "rt"), TTL: rapid.SampledFrom([]int{1, 8, 30, 100}).Draw(t, "ttl")}
		span := 120
		if focus == "deliver" {
			c.RT, c.TTL, span = rapid.SampledFrom([]int{2000, 2000, 5, 20}).Draw(t, "rt"), rapid.SampledFrom([]int{2000, 2000, 30}).Draw(t, "ttl"), 60
		} else if fw.Pct(t, "defaults", 8) {
			c.Def, span = true, 400
		} else if fw.Pct(t, "none", 8) {
			if rapid.Bool().Draw(t, "nort") {
				c.RT = -1
			} else {
				c.TTL = -1
			}
		}
		top := rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, "top")
		ops := []string{"wait", "wait", "wait", "set", "count"}
		c.Acts = fw.Ops(t, "acts", 1, 60, rapid.Custom(func(t *rapid.T) act {
			return act{At: rapid.IntRange(0, span).Draw(t, "at"), Op: rapid.SampledFrom(ops).Draw(t, "op"), K: rapid.IntRange(0, top).Draw(t, "k")}
		}))
		sort.SliceStable(c.Acts, func(i, j int) bool { return c.Acts[i].At < c.Acts[j].At })
		if focus == "cancel" {
			c.Cancel = rapid.IntRange(1, span).Draw(t, "cancel")
		}
		return c
	}
}

type waiter struct {
	k           int
	t0          time.Duration
	want        int
	at          time.Duration // when it is to return; -1 while that is open
	done        bool
	got         int
	t1          time.Duration
	whyReturned string
}

type wmKey struct {
	has      bool
	v        int
	until    time.Duration
	group    []*waiter
	deadline time.Duration
}

type wmModel struct {
	rt, ttl time.Duration
	m       map[int]*wmKey
	timeout int
	expired int
}

func (m *wmModel) advance(now time.Duration) {
	for k, s := range m.m {
		for {
			if len(s.group) > 0 && s.deadline <= now {
				m.timeout++
				for _, w := range s.group {
					w.at, w.want, w.whyReturned = s.deadline, 0, "timeout"
				}
				s.group, s.has, s.v, s.until = nil, true, 0, s.deadline+m.ttl
				continue
			}
			if s.has && s.until <= now {
				m.expired++
				delete(m.m, k)
			}
			break
		}
	}
}

func runWait(focus string) func(*fw.Env, waitCase) {
	return func(e *fw.Env, c waitCase) {
		e.LeakIsViolation = true
		e.Bubble(func() { runWaitIn(e, c, focus) })
	}
}

func runWaitIn(e *fw.Env, c waitCase, focus string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rt, ttl, unit := span(c.RT, 500*us), span(c.TTL, 250*us), ms
	b := collections.NewWaitMap[int, int]()
	if c.Def {
		rt, ttl, unit = 10*time.Second, 5*time.Minute, 1003*ms
	} else {
		b = b.WithRequestTimeout(rt).WithResponseTtl(ttl)
	}
	if focus == "cancel" || c.RT%2 == 0 {
		b = b.WithContext(ctx) // otherwise there is none, and everything ends by itself
	}
	wm := b.Build()
	start := time.Now()
	model := &wmModel{rt: rt, ttl: ttl, m: map[int]*wmKey{}}
	var mu sync.Mutex
	var all []*waiter
	cancelled := time.Duration(-1)
	check := func(now time.Duration) {
		model.advance(now)
		mu.Lock()
		defer mu.Unlock()
		for _, w := range all {
			due := w.at >= 0 && w.at <= now
			switch {
			case w.done && !due:
				e.Fail("Wait(%d) at %v returned %d at %v, while nothing was set and its time was not over; case %+v", w.k, w.t0, w.got, w.t1, c)
			case due && !w.done:
				e.Fail("Wait(%d) at %v has not returned at %v; want %d at %v (%s)", w.k, w.t0, now, w.want, w.at, w.whyReturned)
			case w.done && (w.got != w.want || w.t1 != w.at):
				e.Fail("Wait(%d) at %v returned %d at %v; want %d at %v (%s)", w.k, w.t0, w.got, w.t1, w.want, w.at, w.whyReturned)
			}
		}
		if got := wm.Count(); got != len(model.m) && cancelled < 0 {
			e.Fail("Count() = %d at %v, want %d", got, now, len(model.m))
		}
	}
	doCancel := func(now time.Duration) {
		cancel()
		fw.Settle()
		cancelled = now
		for _, s := range model.m {
			for _, w := range s.group {
				w.at, w.want, w.whyReturned = now, 0, "the context is over"
			}
		}
		e.LabelIf(len(model.m) > 0, "entries at the end of the context")
		model.m = map[int]*wmKey{}
		if n := wm.Count(); n != 0 {
			e.Fail("Count() = %d after the end of the context at %v", n, now)
		}
		check(now)
		e.NoStrays("when the context is over")
	}
	multi, again := false, false
	for n, a := range c.Acts {
		at := time.Duration(a.At) * unit
		if ct := time.Duration(c.Cancel) * unit; c.Cancel > 0 && cancelled < 0 && at >= ct {
			fw.Sleep(ct - time.Since(start))
			check(ct)
			doCancel(ct)
		}
		fw.Sleep(at - time.Since(start))
		check(at)
		s := model.m[a.K]
		switch a.Op {
		case "wait":
			w := &waiter{k: a.K, t0: at, at: -1}
			if cancelled >= 0 {
				w.at, w.whyReturned = at, "the context is over"
			} else if s != nil && s.has {
				w.at, w.want, w.whyReturned = at, s.v, "set"
			} else {
				if s == nil {
					s = &wmKey{deadline: at + rt}
					model.m[a.K] = s
				}
				s.group = append(s.group, w)
			}
			all = append(all, w)
			go func() {
				got := wm.Wait(w.k)
				mu.Lock()
				w.got, w.done, w.t1 = got, true, time.Since(start)
				mu.Unlock()
			}()
		case "set":
			if cancelled < 0 {
				if s == nil || !s.has {
					ns := &wmKey{has: true, v: n + 1, until: at + ttl}
					if s != nil {
						multi = multi || len(s.group) > 1
						for _, w := range s.group {
							w.at, w.want, w.whyReturned = at, n+1, "set"
						}
					}
					model.m[a.K] = ns
				} else {
					again = true
				}
			}
			wm.Set(a.K, n+1)
		}
		if time.Since(start) != at {
			e.Fail("%s(%d) at %v took %v", a.Op, a.K, at, time.Since(start)-at)
		}
		fw.Settle()
		check(at)
		if cancelled >= 0 {
			if n := wm.Count(); n != 0 {
				e.Fail("Count() = %d at %v, after the end of the context at %v", n, at, cancelled)
			}
		}
	}
	if c.Cancel > 0 && cancelled < 0 {
		ct := time.Duration(c.Cancel) * unit
		fw.Sleep(ct - time.Since(start))
		check(ct)
		doCancel(ct)
	}
	fw.Sleep(time.Since(start)*0 + rt + ttl + 2*ms)
	check(time.Since(start))
	if n := wm.Count(); n != 0 {
		e.Fail("Count() = %d after everything has expired", n)
	}
	if focus != "cancel" { // a new round on the same keys, long after the old one
		t := time.Since(start)
		for k := 0; k < 2; k++ {
			v := wm.Wait(k)
			if d := time.Since(start) - t; v != 0 || d != rt {
				e.Fail("long after everything: Wait(%d) returned %d after %v, request timeout %v", k, v, d, rt)
			}
			t = time.Since(start)
		}
	}
	e.LabelIf(multi, "several waiters at the Set")
	e.LabelIf(again, "set again within the TTL")
	e.LabelIf(model.timeout > 0, "timed out")
	e.LabelIf(model.expired > 0, "expired")
	switch focus {
	case "deliver":
		e.NonTrivial(multi || again)
	case "time":
		e.NonTrivial(model.timeout > 0 && model.expired > 0)
	default:
		e.NonTrivial(len(all) > 1 && cancelled > 0)
	}
}

// C46

type wop struct {
	Op string `json:"op"`
	K  int    `json:"k"`
	V  int    `json:"v,omitempty"`
}

func (o wop) String() string {
	if o.Op == "set" {
		return fmt.Sprintf("Set(%d, %d)", o.K, o.V)
	}
	return fmt.Sprintf("%s(%d)", o.Op, o.K)
}

type waitConc struct {
	Thr [][]wop `json:"thr"`
}

func genWaitConc(t *rapid.T) waitConc {
	var c waitConc
	top := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "top")
	n := 0
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) wop {
		n++
		o := wop{Op: rapid.SampledFrom([]string{"wait", "wait", "set", "count"}).Draw(t, "op"), K: rapid.IntRange(0, top).Draw(t, "k")}
		if o.Op == "set" {
			o.V = n
		}
		return o
	}), 1, 6), 2, 6).Draw(t, "thr")
	last := []wop{} // sets every key, so that no Wait is left alone
	for k := 0; k <= top; k++ {
		last = append(last, wop{Op: "set", K: k, V: 1000 + k})
	}
	c.Thr = append(c.Thr, last)
	return c
}

func runWaitConc(e *fw.Env, c waitConc) {
	fw.Repeat(e, 2, func() {
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			wm := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(time.Hour / 2).WithResponseTtl(time.Hour).Build()
			keys := len(c.Thr[len(c.Thr)-1])
			ex := func(_ int, o wop) any {
				switch o.Op {
				case "set":
					wm.Set(o.K, o.V)
					return nil
				case "wait":
					return wm.Wait(o.K)
				}
				n := wm.Count()
				if n < 0 || n > keys {
					e.Report("Count() = %d with %d keys in all", n, keys)
				}
				return n
			}
			hist := fw.Threads(c.Thr, ex)
			e.NonTrivial(fw.Overlaps(hist) > 0)
			if n := wm.Count(); n != keys {
				e.Fail("Count() = %d, with %d keys set\n%s", n, keys, fw.HistString(hist))
			}
			var fin []wop
			for _, o := range c.Thr[len(c.Thr)-1] {
				fin = append(fin, wop{Op: "wait", K: o.K})
			}
			hist = append(hist, fw.Threads([][]wop{fin, fin}, ex)...)
			fw.Linearizable(e, "", func(st string, o wop, out any) (bool, string) {
				switch o.Op {
				case "set":
					if st == "" {
						return true, fmt.Sprint(o.V)
					}
					return true, st
				case "wait":
					return fmt.Sprint(out) == st, st
				}
				return true, st
			}, func(o wop) string { return fmt.Sprint(o.K) }, hist)
		})
	})
}

// churn: waits, sets, timeouts and expiries, all at the same instants

type waitChurn struct {
	RT     int     `json:"rt"`
	TTL    int     `json:"ttl"`
	Cancel int     `json:"cancel,omitempty"`
	Acts   []churn `json:"acts"`
}
type churn struct {
	At int `json:"at"`
	wop
}

func genChurn(ops []string) func(t *rapid.T) waitChurn {
	return func(t *rapid.T) waitChurn {
		c := waitChurn{RT: rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "rt"), TTL: rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "ttl")}
		top := rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "top")
		n := 0
		c.Acts = fw.Ops(t, "acts", 2, 60, rapid.Custom(func(t *rapid.T) churn {
			n++
			a := churn{At: rapid.IntRange(0, 14).Draw(t, "at")}
			a.K = rapid.IntRange(0, top).Draw(t, "k")
			a.Op = rapid.SampledFrom(ops).Draw(t, "op")
			if a.Op != "wait" {
				a.V = n
			}
			return a
		}))
		if fw.Pct(t, "cancels", 15) {
			c.Cancel = rapid.IntRange(1, 14).Draw(t, "cancel")
		}
		return c
	}
}

func runWaitChurn(e *fw.Env, c waitChurn) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		rt, ttl := time.Duration(c.RT)*ms, time.Duration(c.TTL)*ms
		wm := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(rt).WithResponseTtl(ttl).Build()
		start := time.Now()
		over := 1000 * time.Hour
		var wg sync.WaitGroup
		if c.Cancel > 0 {
			over = time.Duration(c.Cancel) * ms
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(over)
				cancel()
			}()
		}
		setAt := map[[2]int]time.Duration{}
		waitAt := map[[2]int]bool{} // key, ms
		for _, a := range c.Acts {
			if a.Op == "set" {
				setAt[[2]int{a.K, a.V}] = time.Duration(a.At) * ms
			} else {
				waitAt[[2]int{a.K, a.At}] = true
			}
		}
		timeouts := 0
		var mu sync.Mutex
		for _, a := range c.Acts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(a.At) * ms)
				t0 := time.Since(start)
				if a.Op == "set" {
					wm.Set(a.K, a.V)
					if d := time.Since(start) - t0; d > 0 {
						e.Report("Set(%d) took %v", a.K, d)
					}
					return
				}
				v := wm.Wait(a.K)
				t1 := time.Since(start)
				if t1 > t0+rt {
					e.Report("Wait(%d) took %v with a request timeout of %v", a.K, t1-t0, rt)
				}
				if t1 > max(over, t0) {
					e.Report("Wait(%d) at %v returned at %v; the context was over at %v", a.K, t0, t1, over)
				}
				for _, x := range c.Acts {
					if at := time.Duration(x.At) * ms; x.Op == "set" && x.K == a.K && t0 < at && at < t1 {
						e.Report("Wait(%d) at %v returned %d only at %v; %d was set at %v", a.K, t0, v, t1, x.V, at)
					}
				}
				if v == 0 {
					mu.Lock()
					timeouts++
					mu.Unlock()
					if t1 >= over {
						return
					}
					// either a group of waiters whose first came rt before times
					// out now, or the outcome of an earlier one is still there
					ok := waitAt[[2]int{a.K, int((t1 - rt) / ms)}] && t1 >= rt
					for at := 0; t1 == t0 && !ok && at <= a.At; at++ {
						d := time.Duration(at)*ms + rt
						ok = waitAt[[2]int{a.K, at}] && d <= t0 && t0 <= d+ttl
					}
					if !ok {
						e.Report("Wait(%d) at %v returned nothing at %v, and nobody's time was over; request timeout %v, TTL %v", a.K, t0, t1, rt, ttl)
					}
					return
				}
				s, ok := setAt[[2]int{a.K, v}]
				switch {
				case !ok || s > t1:
					e.Report("Wait(%d) returned %d at %v, which nobody had set", a.K, v, t1)
				case s < t0 && t0-s > ttl:
					e.Report("Wait(%d) at %v returned %d, set at %v with a TTL of %v", a.K, t0, v, s, ttl)
				case t1 != max(t0, s):
					e.Report("Wait(%d) at %v returned %d only at %v; it was set at %v", a.K, t0, v, t1, s)
				}
			}()
		}
		wg.Wait()
		fw.Sleep(rt + ttl + ms)
		if n := wm.Count(); n != 0 {
			e.Report("Count() = %d after everything has expired", n)
		}
		e.LabelIf(timeouts > 0, "timed out")
		e.NonTrivial(len(setAt) > 0 && len(waitAt) > 0)
	})
}

func init() {
	fw.Add("C44", "delivery", "several waiters at a Set, or a second Set within the TTL", genWait("deliver"), runWait("deliver"),
		[]fw.Run{fw.Plain(2000), fw.Sched(600), fw.Race(300)}, fw.Reps(5))
	fw.Add("C44", "together", "operations of different goroutines overlapped", genWaitConc, runWaitConc, []fw.Run{fw.Plain(400), fw.Sched(800)}, fw.Reps(20))
	fw.Add("C45", "timeouts", "a request timed out and an answer expired", genWait("time"), runWait("time"),
		[]fw.Run{fw.Plain(3000), fw.Sched(600), fw.Race(300)}, fw.Reps(5))
	fw.Add("C45", "cancel", "several waits and the context ended", genWait("cancel"), runWait("cancel"),
		[]fw.Run{fw.Plain(1500), fw.Sched(400), fw.Race(200)}, fw.Reps(5))
	fw.Add("C46", "linearizable", "operations of different goroutines overlapped", genWaitConc, runWaitConc,
		[]fw.Run{fw.Plain(800), fw.Sched(1200), fw.Race(500)}, fw.Reps(20))
	fw.Add("C46", "churn", "a case with sets and waits", genChurn([]string{"wait", "wait", "set"}), runWaitChurn,
		[]fw.Run{fw.Plain(600), fw.Sched(1000), fw.Race(500)}, fw.Reps(20))
}
