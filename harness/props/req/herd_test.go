package req

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"github.com/rs/zerolog"
	"pgregory.net/rapid"
)

// Herds: thousands of keys whose time is over together.

type herdCase struct {
	Seed uint64 `json:"seed"`
	Init int    `json:"init"` // given at creation
	N    int    `json:"n"`
	Span int    `json:"span"` // used first within so many ms
	TTL  int    `json:"ttl"`
}

func genHerd(t *rapid.T) herdCase {
	sizes := []int{1, 10, 120, 300, 1100, 2500, 6000}
	return herdCase{Seed: rapid.Uint64().Draw(t, "seed"),
		Init: rapid.SampledFrom([]int{0, 0, 1, 10, 120, 300, 1100}).Draw(t, "init"),
		N:    rapid.SampledFrom(sizes).Draw(t, "n"),
		Span: rapid.SampledFrom([]int{0, 1, 10, 300}).Draw(t, "span"),
		TTL:  rapid.SampledFrom([]int{10, 100, 400, 1000}).Draw(t, "ttl")}
}

func runHerdRequest(e *fw.Env, c herdCase) {
	e.LeakIsViolation = true
	ms := time.Millisecond
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var init []*collections.RequestMapInitializer[int, int]
		for k := range c.Init {
			init = append(init, &collections.RequestMapInitializer[int, int]{Key: k, Result: -1 - k})
		}
		m := collections.NewRequestMap(ctx, time.Duration(c.TTL)*ms, init...)
		start := time.Now()
		now := func() int { return int(time.Since(start) / ms) }
		ask := func(k, round int) (got int, called bool) {
			got = m.GetOrCreate(k, func(k int) int { called = true; return 10*k + round })
			return
		}
		born := make([]int, c.Init+c.N)
		r := rand.New(rand.NewPCG(c.Seed, 4))
		var wg sync.WaitGroup
		for k := c.Init; k < len(born); k++ {
			born[k] = r.IntN(c.Span + 1)
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(born[k]) * ms)
				if got, called := ask(k, 0); got != 10*k || !called {
					e.Report("the first request of key %d of %d = %d, its function was called: %v", k, len(born), got, called)
				}
			}()
		}
		look := func() {
			t, lo, hi := now(), 0, 0
			for _, b := range born {
				if b <= t && t < b+c.TTL {
					lo++
				}
				if b <= t && t <= b+c.TTL+200 {
					hi++
				}
			}
			if got := m.Count(); got < lo || got > hi {
				e.Fail("at %d ms Count = %d; %d results are younger than %d ms and %d more may still be there", t, got, lo, c.TTL, hi-lo)
			}
		}
		for t := 0; t <= c.Span+c.TTL+200; t += 50 {
			fw.Sleep(time.Duration(t)*ms + 500*time.Microsecond - time.Since(start))
			look()
			for range 3 { // what is there answers
				k := r.IntN(len(born))
				if born[k] < t && t < born[k]+c.TTL {
					want := 10 * k
					if k < c.Init {
						want = -1 - k
					}
					if got, called := ask(k, 5); got != want || called {
						e.Fail("at %d ms the request of key %d, whose result is of %d ms and lives %d ms, = %d, its function was called: %v; want %d", t, k, born[k], c.TTL, got, called, want)
					}
				}
			}
		}
		wg.Wait()
		fw.Sleep(time.Duration(c.Span+c.TTL+201)*ms - time.Since(start))
		if got := m.Count(); got != 0 {
			e.Fail("Count = %d when every result of %d is older than its lifetime and a fifth of a second", got, len(born))
		}
		for i := 0; i < len(born); i += 1 + len(born)/50 {
			if got, called := ask(i, 7); got != 10*i+7 || !called {
				e.Fail("a new request of key %d after its lifetime = %d, its function was called: %v", i, got, called)
			}
		}
		e.NonTrivial(len(born) > 20)
	})
}

func runHerdResponse(e *fw.Env, c herdCase) {
	e.LeakIsViolation = true
	ms := time.Millisecond
	ct := max(c.TTL, c.Span+2) // every use of the first round is within one clear timeout of another
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		m := collections.NewResponseMap[int, int](ctx).WithLogger(zerolog.Nop()).WithResponseTimeout(time.Hour).WithClearTimeout(time.Duration(ct) * ms).Build()
		start := time.Now()
		r := rand.New(rand.NewPCG(c.Seed, 4))
		n := c.Init + c.N
		born := make([]int, n)
		var wg sync.WaitGroup
		for k := range n {
			born[k] = r.IntN(c.Span + 1)
			wait := k < c.Init // those wait, nobody sets, and clearing releases them
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(born[k]) * ms)
				if !wait {
					m.Set(k, k+1)
					if got := m.Wait(k); got != k+1 {
						e.Report("key %d of %d: set to %d, Wait = %d", k, n, k+1, got)
					}
					return
				}
				got := m.Wait(k)
				t := int(time.Since(start) / ms)
				if got != 0 || t < born[k]+ct || t > born[k]+2*ct {
					e.Report("Wait(%d) of %d at %d ms, which nobody sets, returned %d at %d ms; the clear timeout is %d ms", k, n, born[k], got, t, ct)
				}
			}()
		}
		fw.Sleep(time.Duration(c.Span)*ms + ms/2)
		for k := c.Init; k < n; k++ {
			if born[k]+ct <= c.Span {
				continue
			}
			if got := m.Wait(k); got != k+1 {
				e.Fail("at %d ms Wait(%d) = %d; it was set to %d at %d ms, clear timeout %d ms", c.Span, k, got, k+1, born[k], ct)
			}
		}
		fw.Sleep(time.Duration(c.Span+2*ct+1)*ms - time.Since(start))
		wg.Wait()
		for k := range n {
			m.Set(k, -k-1)
			if got := m.Wait(k); got != -k-1 {
				e.Fail("key %d of %d, used at %d ms, still has the value %d at %v although the clear timeout is %d ms", k, n, born[k], got, time.Since(start), ct)
			}
		}
		e.NonTrivial(n > 20)
	})
}

// C41: values of every kind, set more than once, waited for before and after.

type valCase struct {
	Ops []valOp `json:"ops"` // one a ms
}
type valOp struct {
	Set bool `json:"set,omitempty"`
	K   int  `json:"k"`
	V   int  `json:"v,omitempty"`
}

func genValues(t *rapid.T) valCase {
	return valCase{fw.Ops(t, "ops", 2, 40, rapid.Custom(func(t *rapid.T) valOp {
		return valOp{rapid.Bool().Draw(t, "set"), rapid.IntRange(0, 3).Draw(t, "k"), rapid.IntRange(0, 15).Draw(t, "v")}
	}))}
}

func runValues(e *fw.Env, c valCase) {
	e.LeakIsViolation = true
	ms := time.Millisecond
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		m := collections.NewResponseMap[int, any](ctx).WithLogger(zerolog.Nop()).WithResponseTimeout(time.Second + ms/2).WithClearTimeout(time.Hour).Build()
		start := time.Now()
		first, at := map[int]any{}, map[int]int{}
		for i, o := range c.Ops {
			if _, ok := at[o.K]; o.Set && !ok {
				first[o.K], at[o.K] = fw.Odd(o.V), i
			}
		}
		var wg sync.WaitGroup
		for i, o := range c.Ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(i) * ms)
				if o.Set {
					m.Set(o.K, fw.Odd(o.V))
					return
				}
				got := m.Wait(o.K)
				t, ok := at[o.K]
				took := time.Since(start) - time.Duration(i)*ms
				if ok && (!fw.SameOdd(got, first[o.K]) || took != time.Duration(max(0, t-i))*ms) || !ok && got != nil {
					e.Report("Wait(%d) at %d ms returned %s after %v; the first value is %s of %s ms (known: %v)", o.K, i, fw.ShowOdd(got), took, fw.ShowOdd(first[o.K]), fmt.Sprint(t), ok)
				}
			}()
		}
		wg.Wait()
		e.NonTrivial(len(first) < len(c.Ops)/2)
	})
}

// C39, C40: results of every kind answer until their lifetime is over.

func runReqValues(e *fw.Env, c valCase) {
	e.LeakIsViolation = true
	ms := time.Millisecond
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		type res struct {
			v   any
			err error
		}
		have := map[int]res{}
		var init []*collections.RequestMapInitializer[int, any]
		errOf := func(n int) error {
			if n%3 == 0 {
				return fmt.Errorf("error %d", n)
			}
			return nil
		}
		for _, o := range c.Ops {
			if _, ok := have[o.K]; o.Set && !ok && o.K > 1 {
				have[o.K] = res{fw.Odd(o.V), errOf(o.V)}
				init = append(init, &collections.RequestMapInitializer[int, any]{Key: o.K, Result: fw.Odd(o.V), Err: errOf(o.V)})
			}
		}
		m := collections.NewRequestMap(ctx, time.Second, init...)
		for i, o := range c.Ops {
			want, ok := have[o.K]
			if !ok {
				want = res{fw.Odd(o.V), errOf(o.V)}
			}
			called := false
			var got res
			if o.Set && want.err == nil {
				got.v = m.GetOrCreate(o.K, func(int) any { called = true; return fw.Odd(o.V) })
			} else {
				got.v, got.err = m.GetOrCreateWithErr(o.K, func(int) (any, error) { called = true; return fw.Odd(o.V), errOf(o.V) })
			}
			if called == ok || !fw.SameOdd(got.v, want.v) || fmt.Sprint(got.err) != fmt.Sprint(want.err) {
				e.Fail("request %d of key %d = %s, %v (called: %v); want %s, %v (called: %v)", i, o.K, fw.ShowOdd(got.v), got.err, called, fw.ShowOdd(want.v), want.err, !ok)
			}
			have[o.K] = want
			fw.Sleep(ms)
		}
		if m.Count() != len(have) {
			e.Fail("Count = %d, %d results are kept", m.Count(), len(have))
		}
		fw.Sleep(1300 * ms)
		if m.Count() != 0 {
			e.Fail("Count = %d after the lifetime of everything", m.Count())
		}
		e.NonTrivial(len(have) < len(c.Ops))
	})
}

func init() {
	const rule = "more than twenty keys"
	fw.Add("C39", "herd", rule, genHerd, runHerdRequest, []fw.Run{fw.Plain(30)})
	fw.Add("C42", "herd", rule, genHerd, runHerdResponse, []fw.Run{fw.Plain(30)})
	fw.Add("C41", "values", "fewer keys than half of the operations", genValues, runValues, []fw.Run{fw.Plain(300)})
	fw.Add("C40", "values", "a key was requested again", genValues, runReqValues, []fw.Run{fw.Plain(300)})
	fw.Add("C39", "values", "a key was requested again", genValues, runReqValues, []fw.Run{fw.Plain(150)})
}
