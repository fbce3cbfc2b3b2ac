package wait

import (
	"errors"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// Late: in real time, with TTLs of microseconds and goroutines that sleep
// between any two statements of the code (instrumented builds), so that what a
// goroutine saw has long expired when it goes on. A virtual clock cannot show
// that: there no time passes while anybody can run.

type lateCase struct {
	TTL   int    `json:"ttl"` // us
	Nap   int    `json:"nap"` // density, of 65536
	NapUS int    `json:"nap_us"`
	Keys  int    `json:"keys"`
	G     int    `json:"g"` // waiters
	N     int    `json:"n"` // waits of each
	Seed  uint64 `json:"seed"`
}

func genLate(t *rapid.T) lateCase {
	return lateCase{
		TTL:   rapid.SampledFrom([]int{0, 10, 50, 200, 1000}).Draw(t, "ttl"),
		Nap:   rapid.SampledFrom([]int{300, 1500, 6000}).Draw(t, "nap"),
		NapUS: rapid.SampledFrom([]int{100, 400, 1500}).Draw(t, "napus"),
		Keys:  rapid.IntRange(1, 3).Draw(t, "keys"),
		G:     rapid.IntRange(1, 6).Draw(t, "g"),
		N:     rapid.IntRange(2, 12).Draw(t, "n"),
		Seed:  uint64(rapid.Uint32().Draw(t, "seed")),
	}
}

// latest remembers, by key, the newest value somebody got.
type latest []atomic.Int64

func (l latest) saw(k int, v int64) {
	for {
		old := l[k].Load()
		if v <= old || l[k].CompareAndSwap(old, v) {
			return
		}
	}
}

func runLateWait(e *fw.Env, c lateCase) {
	fw.Naps(c.Nap, time.Duration(c.NapUS)*us)
	wm := collections.NewWaitMap[int, int64]().WithRequestTimeout(time.Hour).WithResponseTtl(time.Duration(c.TTL) * us).Build()
	begun := make(latest, c.Keys) // the last value whose Set has begun
	seen := make(latest, c.Keys)
	var stop atomic.Bool
	var waiters, setters sync.WaitGroup
	for k := 0; k < c.Keys; k++ {
		setters.Add(1)
		go func() {
			defer setters.Done()
			for v := int64(1); !stop.Load(); v++ {
				begun[k].Store(v)
				wm.Set(k, v)
				time.Sleep(30 * us)
			}
		}()
	}
	lives := atomic.Int64{}
	for g := 0; g < c.G; g++ {
		waiters.Add(1)
		go func() {
			defer waiters.Done()
			r := rand.New(rand.NewPCG(c.Seed, uint64(g)))
			for n := 0; n < c.N; n++ {
				k := r.IntN(c.Keys)
				before := seen[k].Load()
				v := wm.Wait(k)
				if v == 0 {
					e.Report("Wait(%d) returned the zero value, and nobody's time was over", k)
				}
				if v > begun[k].Load() {
					e.Report("Wait(%d) returned %d, which was not set", k, v)
				}
				if v < before {
					e.Report("Wait(%d) returned %d after an earlier one had returned %d, set later", k, v, before)
				}
				if v > before {
					lives.Add(1)
				}
				seen.saw(k, v)
				time.Sleep(time.Duration(r.IntN(100)) * us)
			}
		}()
	}
	waiters.Wait()
	stop.Store(true)
	setters.Wait()
	e.NonTrivial(lives.Load() > 2)
}

type numbered struct{ n int64 }

func (*numbered) Error() string { return "numbered" }

func runLateHolder(e *fw.Env, c lateCase) {
	fw.Naps(c.Nap, time.Duration(c.NapUS)*us)
	hm := collections.NewHolderMap[int, int64]().WithTimeout(time.Hour).WithTTL(time.Duration(c.TTL) * us).Build()
	begun := make(latest, c.Keys)
	seen := make(latest, c.Keys)
	var stop atomic.Bool
	var waiters, others sync.WaitGroup
	for k := 0; k < c.Keys; k++ {
		others.Add(1)
		go func() {
			defer others.Done()
			for v := int64(1); !stop.Load(); v++ {
				if v%8 == 7 {
					hm.Release(k)
				} else {
					begun[k].Store(v)
					hm.Error(k, &numbered{v})
				}
				if v%4 == 0 {
					hm.Update(k, int64(k))
				}
				if o, err := hm.Get(k); err == nil && o%10 != int64(k) {
					e.Report("Get(%d) returned the object %d", k, o)
				}
				time.Sleep(30 * us)
			}
		}()
	}
	lives := atomic.Int64{}
	for g := 0; g < c.G; g++ {
		waiters.Add(1)
		go func() {
			defer waiters.Done()
			r := rand.New(rand.NewPCG(c.Seed, uint64(g)))
			for n := 0; n < c.N; n++ {
				k := r.IntN(c.Keys)
				before := seen[k].Load()
				err := hm.Wait(k, int64(100*g+10*n%90+k))
				var x *numbered
				switch {
				case err == nil:
				case !errors.As(err, &x):
					e.Report("Wait(%d) returned %v, which nobody gave; its time was not over", k, err)
				case x.n > begun[k].Load():
					e.Report("Wait(%d) returned error %d, which was not given", k, x.n)
				case x.n < before:
					e.Report("Wait(%d) returned error %d after an earlier one had returned %d, given later", k, x.n, before)
				default:
					if x.n > before {
						lives.Add(1)
					}
					seen.saw(k, x.n)
				}
				time.Sleep(time.Duration(r.IntN(100)) * us)
			}
		}()
	}
	waiters.Wait()
	stop.Store(true)
	others.Wait()
	e.NonTrivial(lives.Load() > 2)
}

func init() {
	late := []fw.Run{fw.Plain(100), fw.Sched(1600), fw.Race(300)}
	fw.Add("C46", "late", "answers of several lives of a key were seen", genLate, runLateWait, late, fw.RealTime(), fw.Reps(10))
	fw.Add("C49", "late", "outcomes of several lives of a key were seen", genLate, runLateHolder, late, fw.RealTime(), fw.Reps(10))
}
