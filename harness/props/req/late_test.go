package req

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// Late: in real time, with lifetimes of microseconds to milliseconds and
// goroutines that sleep between any two statements of the code (instrumented
// builds), so that what a goroutine saw has long expired when it goes on.

type lateCase struct {
	TTL   int    `json:"ttl"` // us
	Nap   int    `json:"nap"` // density, of 65536
	NapUS int    `json:"nap_us"`
	Keys  int    `json:"keys"`
	G     int    `json:"g"`
	N     int    `json:"n"`
	Seed  uint64 `json:"seed"`
}

func genLateResponse(t *rapid.T) lateCase {
	return lateCase{
		TTL:   rapid.SampledFrom([]int{10, 50, 200, 1000}).Draw(t, "ttl"),
		Nap:   rapid.SampledFrom([]int{300, 1500, 6000}).Draw(t, "nap"),
		NapUS: rapid.SampledFrom([]int{100, 400, 1500}).Draw(t, "napus"),
		Keys:  rapid.IntRange(1, 3).Draw(t, "keys"),
		G:     rapid.IntRange(1, 6).Draw(t, "g"),
		N:     rapid.IntRange(2, 12).Draw(t, "n"),
		Seed:  uint64(rapid.Uint32().Draw(t, "seed")),
	}
}

// latest remembers, by key, the newest value somebody got.
type latest []atomic.Int64

func (l latest) saw(k int, v int64) {
	for {
		old := l[k].Load()
		if v <= old || l[k].CompareAndSwap(old, v) {
			return
		}
	}
}

func runLateResponse(e *fw.Env, c lateCase) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	fw.Naps(c.Nap, time.Duration(c.NapUS)*time.Microsecond)
	rm := collections.NewResponseMap[int, int64](ctx).WithResponseTimeout(time.Hour).WithClearTimeout(time.Duration(c.TTL) * time.Microsecond).Build()
	begun := make(latest, c.Keys) // the last value whose Set has begun
	seen := make(latest, c.Keys)
	var stop atomic.Bool
	var waiters, setters sync.WaitGroup
	for k := 0; k < c.Keys; k++ {
		setters.Add(1)
		go func() {
			defer setters.Done()
			for v := int64(1); !stop.Load(); v++ {
				begun[k].Store(v)
				rm.Set(k, v)
				time.Sleep(30 * time.Microsecond)
			}
		}()
	}
	lives := atomic.Int64{}
	for g := 0; g < c.G; g++ {
		waiters.Add(1)
		go func() {
			defer waiters.Done()
			r := rand.New(rand.NewPCG(c.Seed, uint64(g)))
			for n := 0; n < c.N; n++ {
				k := r.IntN(c.Keys)
				before := seen[k].Load()
				v := rm.Wait(k)
				if v == 0 { // cleared while it waited
					continue
				}
				if v > begun[k].Load() {
					e.Report("Wait(%d) returned %d, which was not set", k, v)
				}
				if v < before {
					e.Report("Wait(%d) returned %d after an earlier one had returned %d, set later", k, v, before)
				}
				if v > before {
					lives.Add(1)
				}
				seen.saw(k, v)
				time.Sleep(time.Duration(r.IntN(100)) * time.Microsecond)
			}
		}()
	}
	waiters.Wait()
	stop.Store(true)
	setters.Wait()
	e.NonTrivial(lives.Load() > 2)
}

func genLateRequest(t *rapid.T) lateCase {
	c := lateCase{
		TTL:   rapid.SampledFrom([]int{0, 1000, 40_000, 110_000}).Draw(t, "ttl"),
		Nap:   rapid.SampledFrom([]int{300, 1500, 6000}).Draw(t, "nap"),
		NapUS: rapid.SampledFrom([]int{400, 5000, 120_000}).Draw(t, "napus"),
		Keys:  rapid.IntRange(1, 4).Draw(t, "keys"),
		G:     rapid.IntRange(2, 8).Draw(t, "g"),
		N:     rapid.IntRange(2, 12).Draw(t, "n"),
		Seed:  uint64(rapid.Uint32().Draw(t, "seed")),
	}
	if c.NapUS > 50_000 {
		c.Nap = min(c.Nap, 1500)
	}
	return c
}

func runLateRequest(e *fw.Env, c lateCase) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	fw.Naps(c.Nap, time.Duration(c.NapUS)*time.Microsecond)
	ttl := time.Duration(c.TTL) * time.Microsecond
	rm := collections.NewRequestMap[int, int64](ctx, ttl)
	begun := make(latest, c.Keys) // the last flight that has begun
	seen := make(latest, c.Keys)
	flying := make(latest, c.Keys)
	ended := make([]time.Time, c.Keys)
	flight := func(k int) int64 {
		if flying[k].Add(1) > 1 {
			e.Report("two requests for key %d run at once", k)
		}
		if d := time.Since(ended[k]); !ended[k].IsZero() && d < ttl {
			e.Report("key %d is requested again %v after its last result, which lives %v", k, d, ttl)
		}
		v := begun[k].Add(1)
		time.Sleep(time.Duration(v%3*40) * time.Microsecond)
		ended[k] = time.Now()
		flying[k].Add(-1)
		return v
	}
	failed := func(v int64) error {
		if v%3 == 0 {
			return fmt.Errorf("flight %d failed", v)
		}
		return nil
	}
	var wg sync.WaitGroup
	flights := func() (n int64) {
		for k := range begun {
			n += begun[k].Load()
		}
		return
	}
	for g := 0; g < c.G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(c.Seed, uint64(g)))
			for n := 0; n < c.N; n++ {
				k := r.IntN(c.Keys)
				before := seen[k].Load()
				var v int64
				if c.Seed%2 == 0 {
					v = rm.GetOrCreate(k, flight)
				} else {
					var err error
					v, err = rm.GetOrCreateWithErr(k, func(k int) (int64, error) {
						v := flight(k)
						return v, failed(v)
					})
					if (err != nil) != (failed(v) != nil) || err != nil && err.Error() != failed(v).Error() {
						e.Report("the request for key %d gave %d, %v", k, v, err)
					}
				}
				if v <= 0 || v > begun[k].Load() {
					e.Report("the request for key %d gave %d; %d flights have begun", k, v, begun[k].Load())
				}
				if v < before {
					e.Report("the request for key %d gave the result of flight %d after an earlier one gave that of flight %d", k, v, before)
				}
				seen.saw(k, v)
				time.Sleep(time.Duration(r.IntN(60)) * time.Millisecond)
			}
		}()
	}
	wg.Wait()
	e.NonTrivial(flights() > int64(c.Keys))
}

func init() {
	fw.Add("C43", "late", "values of several lives of a key were seen", genLateResponse, runLateResponse,
		[]fw.Run{fw.Plain(100), fw.Sched(1600), fw.Race(300)}, fw.RealTime(), fw.Reps(10))
	fw.Add("C38", "late", "a key was requested again", genLateRequest, runLateRequest,
		[]fw.Run{fw.Plain(24), fw.Sched(120)}, fw.RealTime(), fw.Reps(3))
	fw.Add("C39", "late", "a key was requested again", genLateRequest, runLateRequest,
		[]fw.Run{fw.Plain(24), fw.Sched(120)}, fw.RealTime(), fw.Reps(3))
}
