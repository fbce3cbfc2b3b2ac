package req

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// C38, C39, C40: RequestMap. Calls are made at drawn virtual times; what they
// return and when is compared with the flights of the request functions.

type reqCall struct {
	At  int  `json:"at"` // virtual ms
	K   int  `json:"k"`
	Dur int  `json:"dur"` // how long the function runs, if this call starts it
	Err bool `json:"err,omitempty"`
	Pl  bool `json:"plain,omitempty"` // GetOrCreate, not GetOrCreateWithErr
	TO  int  `json:"to,omitempty"`    // wrapped in Timeout(TO ms); -1: no time at all, -2: less
}
type reqCase struct {
	TTL    int       `json:"ttl"`
	Init   []int     `json:"init,omitempty"` // preloaded keys
	IErr   []bool    `json:"ierr,omitempty"`
	Calls  []reqCall `json:"calls"`
	Cancel int       `json:"cancel,omitempty"` // ms at which the context ends; 0: after everything; -1: before
	Look   []int     `json:"look,omitempty"`   // ms at which Count is looked at
}

func genReq(focus string) func(*rapid.T) reqCase {
	return func(t *rapid.T) reqCase {
		c := reqCase{TTL: rapid.SampledFrom([]int{0, 10, 100, 150, 250, 1000}).Draw(t, "ttl")}
		top := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "top")
		span := rapid.SampledFrom([]int{0, 5, 60, 400, 3000}).Draw(t, "span")
		if focus == "ttl" {
			span = rapid.SampledFrom([]int{400, 1500, 4000}).Draw(t, "span2")
		}
		// times cluster around multiples of a step, so that calls meet
		step := max(1, span/12)
		call := rapid.Custom(func(t *rapid.T) reqCall {
			x := reqCall{
				At:  min(span, rapid.IntRange(0, 12).Draw(t, "at")*step+rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "off")),
				K:   rapid.IntRange(0, top).Draw(t, "k"),
				Dur: rapid.SampledFrom([]int{0, 0, 1, 3, 20, 60, 170}).Draw(t, "dur"),
			}
			switch focus {
			case "ttl":
				x.Dur = rapid.SampledFrom([]int{0, 0, 1, 20}).Draw(t, "dur2")
			case "err":
				x.Err = rapid.Bool().Draw(t, "err")
				if rapid.Bool().Draw(t, "timeout") {
					x.TO = rapid.SampledFrom([]int{1, 2, 10, 40, 100, 1, 2, 10, 40, 100, -1, -2}).Draw(t, "to")
				}
			case "ctx":
				x.Err = fw.Pct(t, "err", 35)
			default:
				x.Err = fw.Pct(t, "err", 20)
			}
			x.Pl = !x.Err && x.TO == 0 && rapid.Bool().Draw(t, "plain")
			return x
		})
		c.Calls = fw.Ops(t, "calls", 1, 40, call)
		if focus == "ttl" && fw.Pct(t, "idles", 15) { // nothing happens for long
			idle := rapid.SampledFrom([]int{6000, 20_000, 70_000, 400_000}).Draw(t, "idle")
			for i := range c.Calls {
				if c.Calls[i].At > span/2 {
					c.Calls[i].At += idle
				}
			}
			span += idle
		}
		if rapid.IntRange(0, 2).Draw(t, "preload") == 0 {
			c.Init = rapid.SliceOfN(rapid.IntRange(0, 4), 1, 4).Draw(t, "init")
			for range c.Init {
				c.IErr = append(c.IErr, rapid.Bool().Draw(t, "ierr"))
			}
		}
		if focus == "flight" && fw.Pct(t, "cancels", 15) {
			c.Cancel = rapid.IntRange(1, span+50).Draw(t, "cancel")
		}
		if focus == "ctx" {
			c.Cancel = genEnd(t, span)
		}
		c.Look = rapid.SliceOfN(rapid.IntRange(0, span+c.TTL+300), 0, 6).Draw(t, "look")
		return c
	}
}

type flight struct {
	k, start, end int // end -1: still running
	val           int
	err           error
}

type reply struct {
	call   reqCall
	n      int
	t0, t1 int
	val    int
	err    error
}

func runReq(focus string) func(*fw.Env, reqCase) {
	return func(e *fw.Env, c reqCase) {
		e.LeakIsViolation = true
		e.Bubble(func() { runReqIn(e, c, focus) })
	}
}

func runReqIn(e *fw.Env, c reqCase, focus string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var inits []*collections.RequestMapInitializer[int, int]
	flights := map[int][]*flight{}
	for i, k := range c.Init {
		x := &collections.RequestMapInitializer[int, int]{Key: k, Result: 9000 + i}
		if c.IErr[i] {
			x.Err = fmt.Errorf("initial error %d", i)
		}
		inits = append(inits, x)
		flights[k] = []*flight{{k: k, start: -1, end: 0, val: x.Result, err: x.Err}}
	}
	if c.Cancel < 0 {
		cancel()
	}
	rm := collections.NewRequestMap(ctx, time.Duration(c.TTL)*time.Millisecond, inits...)
	start := time.Now()
	now := func() int { return int(time.Since(start) / time.Millisecond) }
	if got := rm.Count(); got != len(flights) {
		e.Fail("Count = %d with %d preloaded keys", got, len(flights))
	}
	var mu sync.Mutex
	var replies []*reply
	running := map[int]int{}
	shared := false
	// the function a call passes: it records its flight
	fn := func(n int, x reqCall) func(int) (int, error) {
		return func(k int) (int, error) {
			f := &flight{k: x.K, start: now(), end: -1, val: n + 1}
			mu.Lock()
			if k != x.K {
				e.Report("call %d for key %d: its function was called with key %d", n, x.K, k)
			}
			if running[x.K]++; running[x.K] > 1 {
				e.Report("two request functions of key %d run at once (call %d's started at %d ms)", x.K, n, f.start)
			}
			flights[x.K] = append(flights[x.K], f)
			mu.Unlock()
			if x.Dur > 0 {
				time.Sleep(time.Duration(x.Dur) * time.Millisecond)
			} else {
				runtime.Gosched()
			}
			if x.Err {
				f.err = fmt.Errorf("error of call %d", n)
			}
			mu.Lock()
			running[x.K]--
			f.end = now()
			mu.Unlock()
			return f.val, f.err
		}
	}
	var wg sync.WaitGroup
	calls := append([]reqCall{}, c.Calls...)
	sort.SliceStable(calls, func(i, j int) bool { return calls[i].At < calls[j].At })
	for n, x := range calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(x.At) * time.Millisecond)
			r := &reply{call: x, n: n, t0: now()}
			f := fn(n, x)
			switch {
			case x.Pl:
				r.val = rm.GetOrCreate(x.K, func(k int) int { v, _ := f(k); return v })
			case x.TO != 0:
				to, real := max(0, x.TO), time.Duration(x.TO+1)*time.Millisecond
				if x.TO > 0 {
					real = time.Duration(x.TO) * time.Millisecond
				}
				// the flight of a wrapped function is the wrapper's: it is
				// over at the timeout at the latest, whatever the inner one does
				w := &flight{k: x.K, start: -1, end: -1}
				tf := rm.Timeout(real, func(k int) (int, error) {
					if x.Dur > 0 {
						time.Sleep(time.Duration(x.Dur) * time.Millisecond)
					}
					if x.Err {
						return 555, errInner
					}
					return n + 1, nil
				})
				r.val, r.err = rm.GetOrCreateWithErr(x.K, func(k int) (int, error) {
					mu.Lock()
					w.start = now()
					if running[x.K]++; running[x.K] > 1 {
						e.Report("two request functions of key %d run at once (call %d's started at %d ms)", x.K, n, w.start)
					}
					flights[x.K] = append(flights[x.K], w)
					mu.Unlock()
					v, err := tf(k)
					mu.Lock()
					defer mu.Unlock()
					running[x.K]--
					w.end, w.val, w.err = now(), v, err
					switch took := w.end - w.start; {
					case errors.Is(err, collections.ErrTimeout):
						e.Label("timed out")
						if took != to || x.Dur < to || v != 0 {
							e.Report("Timeout(%d ms) of a function that takes %d ms gave up after %d ms with value %d", to, x.Dur, took, v)
						}
					case took != x.Dur || x.Dur > to:
						e.Report("Timeout(%d ms) of a function that takes %d ms returned %d, %v after %d ms", to, x.Dur, v, err, took)
					case x.Err && (err != errInner || v != 555) || !x.Err && (err != nil || v != n+1):
						e.Report("Timeout returned %d, %v and its function another result (call %d)", v, err, n)
					}
					return v, err
				})
			default:
				r.val, r.err = rm.GetOrCreateWithErr(x.K, f)
			}
			r.t1 = now()
			mu.Lock()
			replies = append(replies, r)
			mu.Unlock()
		}()
	}
	if c.Cancel > 0 {
		go func() {
			time.Sleep(time.Duration(c.Cancel) * time.Millisecond)
			cancel()
		}()
	}
	const tick = 200
	// Count: what runs, and what is kept
	look := append([]int{}, c.Look...)
	sort.Ints(look)
	for _, at := range look {
		fw.Sleep(time.Duration(at)*time.Millisecond + 500*time.Microsecond - time.Since(start))
		mu.Lock()
		sure, due := 0, 0
		for _, fs := range flights {
			f := fs[len(fs)-1]
			age := at - f.end
			switch {
			case f.end < 0 || age < c.TTL:
				sure++
			case age <= c.TTL+tick || c.Cancel != 0 && at >= c.Cancel-tick:
				due++
			}
		}
		got := rm.Count()
		mu.Unlock()
		if got < sure || got > sure+due {
			e.Fail("at %d ms Count = %d; %d keys are requested or kept, %d more may be (ttl %d ms)", at, got, sure, due, c.TTL)
		}
	}
	wg.Wait()
	if focus == "ctx" {
		fw.Sleep(time.Duration(c.Cancel)*time.Millisecond + time.Microsecond - time.Since(start))
		e.NoStrays("after the end of the context and of all calls")
	}
	mu.Lock()
	defer mu.Unlock()
	// flights of one key: a new one starts only when the last result is too old
	for k, fs := range flights {
		for i := 1; i < len(fs); i++ {
			a, b := fs[i-1], fs[i]
			if a.end < 0 {
				e.Fail("key %d: flight %+v never ended", k, *a)
			}
			if b.start < a.end+c.TTL {
				e.Fail("key %d was requested again at %d ms; its last result is of %d ms and lives %d ms", k, b.start, a.end, c.TTL)
			}
			e.Label("requested again after its lifetime")
			if focus == "ttl" {
				e.NonTrivial(true)
			}
		}
	}
	for _, r := range replies {
		// equal results of several requests: one of them must fit
		var f *flight
		why := fmt.Sprintf("no request of key %d gave that", r.call.K)
		for _, x := range flights[r.call.K] {
			if x.val != r.val || x.err != r.err && !r.call.Pl || x.end < 0 {
				continue
			}
			switch old := r.t0 - x.end; {
			case x.start > r.t0:
				why = fmt.Sprintf("its request started later, at %d ms", x.start)
			case r.t1 != max(r.t0, x.end):
				why = fmt.Sprintf("its result was there at %d ms", x.end)
			case old > c.TTL+tick && (c.Cancel == 0 || x.end+c.TTL+tick < c.Cancel):
				why = fmt.Sprintf("its result is of %d ms and lives %d ms", x.end, c.TTL)
			default:
				f = x
			}
		}
		if f == nil {
			e.Fail("call %d (%+v) made at %d ms returned %d, %v at %d ms: %s", r.n, r.call, r.t0, r.val, r.err, r.t1, why)
		}
		if f.start < r.t0 && f.end > r.t0 {
			shared = true
		}
		e.LabelIf(r.err != nil, "an error was returned")
	}
	if focus == "ctx" {
		for _, r := range replies {
			e.NonTrivial(r.t1 > c.Cancel)
		}
	}
	if focus == "flight" {
		e.NonTrivial(shared)
		e.LabelIf(c.Cancel > 0, "context cancelled")
	}
	if focus == "err" {
		for _, r := range replies {
			e.NonTrivial(r.err != nil)
		}
	}
}

var errInner = errors.New("inner")

// single flight without a clock: goroutines that really run at once

type stormCase struct {
	Spin int      `json:"spin"`
	Err  bool     `json:"err,omitempty"`
	Thr  [][]int  `json:"thr"`
	Str  []string `json:"-"`
}

func genStorm(t *rapid.T) stormCase {
	top := rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "top")
	return stormCase{
		Spin: rapid.IntRange(0, 4).Draw(t, "spin"), Err: rapid.Bool().Draw(t, "err"),
		Thr: rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, top), 1, 8), 2, 8).Draw(t, "thr"),
	}
}

func runStorm(e *fw.Env, c stormCase) {
	fw.Repeat(e, 3, func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		rm := collections.NewRequestMap[string, *int](ctx, time.Hour)
		var calls [4]atomic.Int32
		var made [4]atomic.Pointer[int]
		var mu sync.Mutex
		gots := map[int]map[*int]bool{}
		errs := map[int]map[error]bool{}
		errOf := [4]error{}
		for k := range errOf {
			errOf[k] = fmt.Errorf("error of %d", k)
		}
		var inFlight [4]atomic.Int32
		var overlapped atomic.Bool
		var wg sync.WaitGroup
		start := make(chan struct{})
		for t, ks := range c.Thr {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n, k := range ks {
					if inFlight[k].Load() > 0 {
						overlapped.Store(true)
					}
					f := func(key string) (*int, error) {
						inFlight[k].Add(1)
						defer inFlight[k].Add(-1)
						if key != fmt.Sprint(k) {
							e.Report("the function for key %d was called with %q", k, key)
						}
						calls[k].Add(1)
						for i := 0; i < c.Spin; i++ {
							runtime.Gosched()
						}
						v := 100*t + n
						made[k].Store(&v)
						if c.Err && k%2 == 0 {
							return &v, errOf[k]
						}
						return &v, nil
					}
					var v *int
					var err error
					if (t+n)%2 == 0 && !(c.Err && k%2 == 0) {
						v = rm.GetOrCreate(fmt.Sprint(k), func(key string) *int { v, _ := f(key); return v })
					} else {
						v, err = rm.GetOrCreateWithErr(fmt.Sprint(k), f)
					}
					mu.Lock()
					if gots[k] == nil {
						gots[k], errs[k] = map[*int]bool{}, map[error]bool{}
					}
					gots[k][v] = true
					errs[k][err] = true
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		for k, vs := range gots {
			if n := calls[k].Load(); n != 1 {
				e.Fail("key %d was requested %d times within its lifetime", k, n)
			}
			if len(vs) != 1 || !vs[made[k].Load()] {
				e.Fail("the calls for key %d returned %d different results, or one nobody made", k, len(vs))
			}
			want := error(nil)
			if c.Err && k%2 == 0 {
				want = errOf[k]
			}
			if len(errs[k]) != 1 || !errs[k][want] {
				e.Fail("the calls for key %d returned errors %v, want %v alone", k, errs[k], want)
			}
		}
		if got := rm.Count(); got != len(gots) {
			e.Fail("Count = %d with %d results kept", got, len(gots))
		}
		e.NonTrivial(overlapped.Load())
	})
}

func init() {
	fw.Add("C38", "flights", "a call came in while its key's request ran", genReq("flight"), runReq("flight"),
		[]fw.Run{fw.Plain(2000), fw.Sched(800), fw.Race(400)}, fw.Reps(5))
	fw.Add("C38", "storm", "a call came in while its key's request ran", genStorm, runStorm,
		[]fw.Run{fw.Plain(600), fw.Sched(800), fw.Race(400)}, fw.Reps(20))
	fw.Add("C39", "lifetimes", "a key was requested again after its lifetime", genReq("ttl"), runReq("ttl"),
		[]fw.Run{fw.Plain(2500), fw.Sched(600), fw.Race(300)}, fw.Reps(5))
	fw.Add("C40", "errors", "a call returned an error", genReq("err"), runReq("err"),
		[]fw.Run{fw.Plain(2500), fw.Sched(400), fw.Race(200)}, fw.Reps(5))
}
