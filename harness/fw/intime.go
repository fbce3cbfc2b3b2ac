package fw

import (
	"context"
	"math/rand/v2"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// In time: an answer or outcome given, in real time, before the time of any
// waiter was over is the one they get, however late the goroutines that hand
// it on get the processor, and whatever ends at the same moment.

type InTimeCase struct {
	T      int    `json:"t"`   // us, the timeout
	Nap    int    `json:"nap"` // density, of 65536
	NapUS  int    `json:"nap_us"`
	G      int    `json:"g"`      // waiters
	N      int    `json:"n"`      // rounds, each with a map of its own
	Cancel bool   `json:"cancel"` // end the context after the answer
	Seed   uint64 `json:"seed"`
}

func GenInTime(t *rapid.T) InTimeCase {
	return InTimeCase{
		T:      rapid.SampledFrom([]int{20, 100, 500, 2000}).Draw(t, "t"),
		Nap:    rapid.SampledFrom([]int{0, 300, 1500, 6000}).Draw(t, "nap"),
		NapUS:  rapid.SampledFrom([]int{100, 700, 3000}).Draw(t, "napus"),
		G:      rapid.IntRange(1, 4).Draw(t, "g"),
		N:      rapid.IntRange(1, 6).Draw(t, "n"),
		Cancel: Pct(t, "cancel", 30),
		Seed:   uint64(rapid.Uint32().Draw(t, "seed")),
	}
}

// PlayInTime plays the rounds. wait is called by the waiters, and answer, once
// somebody may be waiting, by one goroutine; it says whether the answer was
// taken. equal compares what a waiter got with the answer.
func PlayInTime(e *Env, c InTimeCase, begin func(ctx context.Context, d time.Duration) (wait func() any, answer func() bool, valid func(any, bool) bool)) {
	Naps(c.Nap, time.Duration(c.NapUS)*time.Microsecond)
	r := rand.New(rand.NewPCG(c.Seed, 1))
	late, early := 0, 0
	for n := 0; n < c.N; n++ {
		ctx, cancel := context.WithCancel(context.Background())
		d := time.Duration(c.T) * time.Microsecond
		if c.Cancel {
			d = time.Hour
		}
		wait, answer, valid := begin(ctx, d)
		got := make([]any, c.G)
		t0 := make([]time.Time, c.G)
		var wg sync.WaitGroup
		for g := 0; g < c.G; g++ {
			wg.Add(1)
			pause := time.Duration(0)
			if g > 0 && r.IntN(2) == 0 {
				pause = time.Duration(r.IntN(c.T)) * time.Microsecond
			}
			go func() {
				defer wg.Done()
				time.Sleep(pause)
				t0[g] = time.Now()
				got[g] = wait()
			}()
		}
		time.Sleep(time.Duration(float64(c.T)*[]float64{0, 0, 0.5, 0.9, 1, 1.1}[r.IntN(6)]) * time.Microsecond)
		ok := false
		for i := 0; i < 20000 && !ok; i++ {
			if ok = answer(); !ok {
				time.Sleep(10 * time.Microsecond)
			}
		}
		t1 := time.Now()
		if c.Cancel {
			cancel()
		}
		wg.Wait()
		cancel()
		if !ok {
			e.Fail("round %d: the answer was never taken", n)
		}
		first := t0[0]
		for _, t := range t0 {
			if t.Before(first) {
				first = t
			}
		}
		answered := 0
		for _, x := range got {
			if !valid(x, true) && !valid(x, false) {
				e.Fail("round %d: a waiter got %v, which nobody gave", n, x)
			}
			if valid(x, true) {
				answered++
			}
		}
		switch {
		case c.Cancel:
			early++
			if answered == 0 {
				e.Fail("round %d: the answer was taken while somebody waited, then the context ended; the waiters got %v", n, got)
			}
		case t1.Before(first.Add(d)):
			early++
			if answered != c.G {
				e.Fail("round %d: the answer was taken %v before the first timeout; the waiters got %v", n, first.Add(d).Sub(t1), got)
			}
		default:
			late++
		}
	}
	e.LabelIf(late > 0, "an answer near the timeout")
	e.NonTrivial(early > 0)
}
