package wait

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// C47, C48, C49: HolderMap. As for WaitMap, the timeouts have a fraction of a
// ms and the acts have not, so that what every call returns, and when, follows
// exactly.

type holdErr struct{ n int }

func (h *holdErr) Error() string { return fmt.Sprint("error ", h.n) }

type holdCase struct {
	RT     int   `json:"rt"`
	TTL    int   `json:"ttl"`
	Def    bool  `json:"def,omitempty"`
	Cancel int   `json:"cancel,omitempty"`
	Acts   []act `json:"acts"`
}

func genHold(focus string) func(*rapid.T) holdCase {
	return func(t *rapid.T) holdCase {
		c := holdCase{RT: rapid.SampledFrom([]int{1, 5, 20, 60}).Draw(t, "rt"), TTL: rapid.SampledFrom([]int{1, 8, 30, 100}).Draw(t, "ttl")}
		span := 120
		if focus == "results" {
			c.RT, c.TTL, span = 2000, 2000, 60
		} else if fw.Pct(t, "defaults", 8) {
			c.Def, span = true, 400
		} else if fw.Pct(t, "none", 8) {
			if rapid.Bool().Draw(t, "nort") {
				c.RT = -1
			} else {
				c.TTL = -1
			}
		}
		top := rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, "top")
		ops := []string{"wait", "wait", "wait", "get", "update", "release", "error", "nilerror"}
		if focus != "results" {
			ops = []string{"wait", "wait", "wait", "wait", "get", "update", "release", "error"}
		}
		c.Acts = fw.Ops(t, "acts", 1, 60, rapid.Custom(func(t *rapid.T) act {
			return act{At: rapid.IntRange(0, span).Draw(t, "at"), Op: rapid.SampledFrom(ops).Draw(t, "op"), K: rapid.IntRange(0, top).Draw(t, "k")}
		}))
		sort.SliceStable(c.Acts, func(i, j int) bool { return c.Acts[i].At < c.Acts[j].At })
		if focus == "cancel" {
			c.Cancel = rapid.IntRange(1, span).Draw(t, "cancel")
		}
		return c
	}
}

type hwaiter struct {
	k      int
	t0, at time.Duration
	want   error
	anyErr bool // some error, no matter which
	any    bool // no matter what
	done   bool
	got    error
	t1     time.Duration
}

type hEntry struct {
	obj      int
	deadline time.Duration
	released bool
	timedOut bool
	err      error
	until    time.Duration
	group    []*hwaiter
}

func runHold(focus string) func(*fw.Env, holdCase) {
	return func(e *fw.Env, c holdCase) {
		e.LeakIsViolation = true
		e.Bubble(func() { runHoldIn(e, c, focus) })
	}
}

func runHoldIn(e *fw.Env, c holdCase, focus string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rt, ttl, unit := span(c.RT, 500*us), span(c.TTL, 250*us), ms
	b := collections.NewHolderMap[int, int]()
	if c.Def {
		rt, ttl, unit = 10*time.Second, 5*time.Minute, 1003*ms
	} else {
		b = b.WithTimeout(rt).WithTTL(ttl)
	}
	if focus == "cancel" || c.RT%2 == 0 {
		b = b.WithContext(ctx)
	}
	hm := b.Build()
	start := time.Now()
	model := map[int]*hEntry{}
	var mu sync.Mutex
	var all []*hwaiter
	cancelled := time.Duration(-1)
	timeouts, expired := 0, 0
	finish := func(h *hEntry, now time.Duration, err error, timedOut bool) {
		h.released, h.err, h.timedOut, h.until = true, err, timedOut, now+ttl
		for _, w := range h.group {
			w.at, w.want, w.anyErr = now, err, timedOut
		}
		h.group = nil
	}
	check := func(now time.Duration) {
		if cancelled < 0 {
			for k, h := range model {
				if !h.released && h.deadline <= now {
					timeouts++
					finish(h, h.deadline, nil, true)
				}
				if h.released && h.until <= now {
					expired++
					delete(model, k)
				}
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for _, w := range all {
			due := w.at >= 0 && w.at <= now
			switch {
			case w.done && !due:
				e.Fail("Wait(%d) at %v returned %v at %v, before the key was released and before the timeout", w.k, w.t0, w.got, w.t1)
			case due && !w.done:
				e.Fail("Wait(%d) at %v has not returned at %v; it was to at %v", w.k, w.t0, now, w.at)
			case !w.done || w.any && w.t1 == w.at:
			case w.t1 != w.at || w.anyErr && w.got == nil || !w.anyErr && w.got != w.want:
				want := fmt.Sprint(w.want)
				if w.anyErr {
					want = "some error"
				}
				e.Fail("Wait(%d) at %v returned %v at %v; want %v at %v", w.k, w.t0, w.got, w.t1, want, w.at)
			}
		}
		got, want := hm.Count(), len(model)
		if cancelled >= 0 {
			want = 0
		}
		if got != want {
			e.Fail("Count() = %d at %v, want %d (context over: %v)", got, now, want, cancelled >= 0)
		}
	}
	used := map[int]bool{}
	doCancel := func(ct time.Duration) {
		fw.Sleep(ct - time.Since(start))
		check(ct)
		cancel()
		fw.Settle()
		cancelled = ct
		for _, h := range model {
			e.LabelIf(len(h.group) > 0, "waiting at the end of the context")
			finish(h, ct, nil, true)
		}
		check(ct)
		e.NoStrays("when the context is over")
	}
	multi, second, updated := false, false, false
	for n, a := range c.Acts {
		at := time.Duration(a.At) * unit
		if ct := time.Duration(c.Cancel) * unit; c.Cancel > 0 && cancelled < 0 && at >= ct {
			doCancel(ct)
		}
		fw.Sleep(at - time.Since(start))
		check(at)
		h := model[a.K]
		var err error
		switch a.Op {
		case "wait":
			w := &hwaiter{k: a.K, t0: at, at: -1}
			switch {
			case cancelled >= 0:
				w.at, w.anyErr, w.any = at, true, used[a.K]
			case h != nil && h.released:
				w.at, w.want, w.anyErr = at, h.err, h.timedOut
			default:
				if h == nil {
					h = &hEntry{obj: n + 1, deadline: at + rt}
					model[a.K] = h
				}
				h.group = append(h.group, w)
			}
			used[a.K] = true
			all = append(all, w)
			go func() {
				got := hm.Wait(w.k, n+1)
				mu.Lock()
				w.got, w.done, w.t1 = got, true, time.Since(start)
				mu.Unlock()
			}()
		case "get":
			var obj int
			obj, err = hm.Get(a.K)
			switch {
			case cancelled >= 0:
				err = nil
			case h == nil:
				if err == nil || obj != 0 {
					e.Fail("Get(%d) of an absent key = %d, %v", a.K, obj, err)
				}
			case obj != h.obj || h.timedOut && err == nil || !h.timedOut && err != h.err:
				e.Fail("Get(%d) at %v = %d, %v; want %d, %v (timed out: %v)", a.K, at, obj, err, h.obj, h.err, h.timedOut)
			}
		case "update":
			err = hm.Update(a.K, n+1)
			if h != nil {
				h.obj = n + 1
				updated = true
			}
		case "release", "error", "nilerror":
			var with error
			switch a.Op {
			case "release":
				err = hm.Release(a.K)
			case "error":
				with = &holdErr{n}
				fallthrough
			default:
				err = hm.Error(a.K, with)
			}
			if h != nil && cancelled < 0 {
				if h.released {
					second = true
				} else {
					multi = multi || len(h.group) > 1
					finish(h, at, with, false)
				}
			}
		}
		if a.Op != "wait" && a.Op != "get" && cancelled < 0 && (err != nil) != (h == nil) {
			e.Fail("%s(%d) at %v returned %v; key present: %v", a.Op, a.K, at, err, h != nil)
		}
		if time.Since(start) != at {
			e.Fail("%s(%d) at %v took %v", a.Op, a.K, at, time.Since(start)-at)
		}
		fw.Settle()
		check(at)
	}
	if c.Cancel > 0 && cancelled < 0 {
		doCancel(max(time.Duration(c.Cancel)*unit, time.Since(start)))
	}
	fw.Sleep(rt + ttl + 2*ms)
	check(time.Since(start))
	if n := hm.Count(); n != 0 {
		e.Fail("Count() = %d after everything has expired", n)
	}
	if focus != "cancel" { // a new round on the same keys, long after the old one
		for k := 0; k < 2; k++ {
			t := time.Since(start)
			err := hm.Wait(k, 77)
			if d := time.Since(start) - t; err == nil || d != rt {
				e.Fail("long after everything: Wait(%d) returned %v after %v, timeout %v", k, err, d, rt)
			}
			if obj, err := hm.Get(k); ttl > 0 && (obj != 77 || err == nil) {
				e.Fail("Get(%d) after a timeout = %d, %v; want 77 and an error", k, obj, err)
			}
		}
	}
	e.LabelIf(multi, "several waiters at the release")
	e.LabelIf(second, "released again")
	e.LabelIf(updated, "updated")
	e.LabelIf(timeouts > 0, "timed out")
	e.LabelIf(expired > 0, "expired")
	switch focus {
	case "results":
		e.NonTrivial(multi || second)
	case "time":
		e.NonTrivial(timeouts > 0 && expired > 0)
	default:
		e.NonTrivial(len(all) > 1 && cancelled > 0)
	}
}

// C49: goroutines that really run at once

func genHoldConc(t *rapid.T) waitConc {
	var c waitConc
	top := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "top")
	n := 0
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) wop {
		n++
		return wop{Op: rapid.SampledFrom([]string{"wait", "wait", "wait", "release", "error", "update", "get", "count"}).Draw(t, "op"),
			K: rapid.IntRange(0, top).Draw(t, "k"), V: n}
	}), 1, 6), 2, 6).Draw(t, "thr")
	return c
}

func runHoldConc(e *fw.Env, c waitConc) {
	fw.Repeat(e, 2, func() {
		e.LeakIsViolation = true
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			const rt = time.Minute
			hm := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(rt).WithTTL(time.Hour).Build()
			start := time.Now()
			type res struct {
				op  wop
				err error
				obj int
				t0  time.Duration
				t   time.Duration
			}
			out := make([][]res, len(c.Thr))
			var wg sync.WaitGroup
			begin := make(chan struct{})
			errs := map[int]*holdErr{}
			for _, s := range c.Thr {
				for _, o := range s {
					errs[o.V] = &holdErr{o.V}
				}
			}
			for i, s := range c.Thr {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-begin
					for _, o := range s {
						r := res{op: o, t0: time.Since(start)}
						switch o.Op {
						case "wait":
							r.err = hm.Wait(o.K, o.V)
						case "release":
							r.err = hm.Release(o.K)
						case "error":
							r.err = hm.Error(o.K, errs[o.V])
						case "update":
							r.err = hm.Update(o.K, o.V)
						case "get":
							r.obj, r.err = hm.Get(o.K)
						case "count":
							if n := hm.Count(); n < 0 || n > 3 {
								e.Report("Count() = %d", n)
							}
						}
						r.t = time.Since(start)
						out[i] = append(out[i], r)
					}
				}()
			}
			close(begin)
			wg.Wait()
			// per key: every Wait has the same outcome, and it is one that a
			// Release or Error gave, or the timeout of the first Wait
			type outcome struct {
				err         error
				first, ends time.Duration
			}
			keys := map[int]*outcome{}
			by := map[int][]res{}
			waits := 0
			for _, rs := range out {
				for _, r := range rs {
					by[r.op.K] = append(by[r.op.K], r)
					if r.op.Op != "wait" {
						if r.t != r.t0 {
							e.Fail("%v took %v", r.op, r.t-r.t0)
						}
						continue
					}
					waits++
					o := keys[r.op.K]
					if o == nil {
						o = &outcome{r.err, r.t0, r.t}
						keys[r.op.K] = o
					}
					if o.err != r.err {
						e.Fail("waits for key %d had different outcomes: %v (at %v) and %v (at %v)", r.op.K, o.err, o.ends, r.err, r.t)
					}
					o.first, o.ends = min(o.first, r.t0), min(o.ends, r.t)
				}
			}
			for k, o := range keys {
				he, own := o.err.(*holdErr)
				given, earlier := false, false
				for _, x := range by[k] {
					switch {
					case x.op.Op == "wait" && x.t != max(x.t0, o.ends):
						e.Fail("Wait(%d) at %v returned at %v; the key was done at %v", k, x.t0, x.t, o.ends)
					case x.err != nil || x.op.Op != "release" && x.op.Op != "error":
					default:
						earlier = earlier || x.t < o.ends
						given = given || x.t == o.ends && (own && x.op.Op == "error" && x.op.V == he.n || o.err == nil && x.op.Op == "release")
					}
				}
				switch {
				case earlier:
					e.Fail("the waits for key %d ended at %v with %v; a Release or Error had succeeded before", k, o.ends, o.err)
				case own || o.err == nil:
					if !given {
						e.Fail("the waits for key %d ended at %v with %v, which nobody gave then", k, o.ends, o.err)
					}
				default:
					e.Label("timed out")
					if o.ends != o.first+rt {
						e.Fail("the waits for key %d timed out at %v; the first was at %v, the timeout is %v", k, o.ends, o.first, rt)
					}
				}
			}
			if n := hm.Count(); n != len(keys) {
				e.Fail("Count() = %d, want %d", n, len(keys))
			}
			for k, o := range keys {
				obj, err := hm.Get(k)
				if err != o.err {
					e.Fail("Get(%d) = %d, %v after the waits ended with %v", k, obj, err, o.err)
				}
				ok := false
				for _, rs := range out {
					for _, x := range rs {
						ok = ok || x.op.K == k && x.op.V == obj && (x.op.Op == "wait" || x.op.Op == "update" && x.err == nil)
					}
				}
				if !ok {
					e.Fail("Get(%d) = %d, which nobody stored there", k, obj)
				}
				if err := hm.Wait(k, 0); err != o.err {
					e.Fail("Wait(%d) = %v after the waits ended with %v", k, err, o.err)
				}
				if err := hm.Update(k, -1); err != nil {
					e.Fail("Update(%d) = %v", k, err)
				}
				if obj, _ := hm.Get(k); obj != -1 {
					e.Fail("Get(%d) = %d after Update", k, obj)
				}
			}
			e.NonTrivial(waits > 1 && len(keys) > 0)
		})
	})
}

func runHoldChurn(e *fw.Env, c waitChurn) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		rt, ttl := time.Duration(c.RT)*ms, time.Duration(c.TTL)*ms
		hm := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(rt).WithTTL(ttl).Build()
		start := time.Now()
		over := 1000 * time.Hour
		var wg sync.WaitGroup
		if c.Cancel > 0 {
			over = time.Duration(c.Cancel) * ms
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(over)
				cancel()
			}()
		}
		errs := map[int]*holdErr{}
		rel := map[[2]int]bool{} // key, ms: a Release or Error
		waits := 0
		for _, a := range c.Acts {
			errs[a.V] = &holdErr{a.V}
			if a.Op == "wait" {
				waits++
			} else {
				rel[[2]int{a.K, a.At}] = true
			}
		}
		var mu sync.Mutex
		ended := 0
		for _, a := range c.Acts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(a.At) * ms)
				t0 := time.Since(start)
				if a.Op != "wait" {
					if a.Op == "release" {
						_ = hm.Release(a.K)
					} else {
						_ = hm.Error(a.K, errs[a.V])
					}
					if d := time.Since(start) - t0; d > 0 {
						e.Report("%v took %v", a.wop, d)
					}
					return
				}
				err := hm.Wait(a.K, a.V)
				t1 := time.Since(start)
				switch {
				case t1 > t0+rt:
					e.Report("Wait(%d) took %v with a timeout of %v", a.K, t1-t0, rt)
				case t1 > max(over, t0):
					e.Report("Wait(%d) at %v returned at %v; the context was over at %v", a.K, t0, t1, over)
				}
				for _, x := range c.Acts {
					if at := time.Duration(x.At) * ms; x.Op != "wait" && x.K == a.K && t0 < at && at < t1 {
						e.Report("Wait(%d) at %v returned %v only at %v; %v at %v", a.K, t0, err, t1, x.wop, at)
					}
				}
				he, own := err.(*holdErr)
				if (own || err == nil) && (t1 > t0 && !rel[[2]int{a.K, int(t1 / ms)}]) {
					e.Report("Wait(%d) at %v returned %v at %v, when nobody released the key", a.K, t0, err, t1)
				}
				if own {
					mu.Lock()
					ended++
					mu.Unlock()
					for _, x := range c.Acts {
						if at := time.Duration(x.At) * ms; x.Op == "error" && x.V == he.n && (x.K != a.K || at > t1 || at < t0 && t0-at > ttl) {
							e.Report("Wait(%d) at %v returned at %v the error given to %d at %v, TTL %v", a.K, t0, t1, x.K, at, ttl)
						}
					}
				}
			}()
		}
		wg.Wait()
		fw.Sleep(rt + ttl + ms)
		if n := hm.Count(); n != 0 {
			e.Report("Count() = %d after everything has expired", n)
		}
		e.NonTrivial(waits > 1 && ended > 0)
	})
}

func init() {
	fw.Add("C47", "results", "several waiters at a release, or a second release within the TTL", genHold("results"), runHold("results"),
		[]fw.Run{fw.Plain(2000), fw.Sched(600), fw.Race(300)}, fw.Reps(5))
	fw.Add("C47", "together", "a case with several waits", genHoldConc, runHoldConc, []fw.Run{fw.Plain(400), fw.Sched(800)}, fw.Reps(20))
	fw.Add("C48", "timeouts", "a wait timed out and an entry expired", genHold("time"), runHold("time"),
		[]fw.Run{fw.Plain(3000), fw.Sched(600), fw.Race(300)}, fw.Reps(5))
	fw.Add("C48", "cancel", "several waits and the context ended", genHold("cancel"), runHold("cancel"),
		[]fw.Run{fw.Plain(1500), fw.Sched(400), fw.Race(200)}, fw.Reps(5))
	fw.Add("C49", "together", "a case with several waits", genHoldConc, runHoldConc,
		[]fw.Run{fw.Plain(800), fw.Sched(1200), fw.Race(500)}, fw.Reps(20))
	fw.Add("C49", "churn", "a wait ended with a given error", genChurn([]string{"wait", "wait", "release", "error"}), runHoldChurn,
		[]fw.Run{fw.Plain(600), fw.Sched(1000), fw.Race(500)}, fw.Reps(20))
}
