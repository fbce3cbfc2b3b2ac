package maps

import (
	"context"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// C51 in real time, with lives of microseconds and goroutines that sleep
// between any two statements of the code (instrumented builds). Each element
// is used by one goroutine only, which knows what must be there.

type lateCase struct {
	TTL   int    `json:"ttl"`   // us
	Every int    `json:"every"` // us between checks
	Nap   int    `json:"nap"`   // density, of 65536
	NapUS int    `json:"nap_us"`
	G     int    `json:"g"`
	N     int    `json:"n"`
	Seed  uint64 `json:"seed"`
}

func genLate(t *rapid.T) lateCase {
	return lateCase{
		TTL:   rapid.SampledFrom([]int{50, 500, 2000, 8000}).Draw(t, "ttl"),
		Every: rapid.SampledFrom([]int{20, 200, 1000, 5000}).Draw(t, "every"),
		Nap:   rapid.SampledFrom([]int{0, 300, 1500, 4000}).Draw(t, "nap"),
		NapUS: rapid.SampledFrom([]int{100, 700, 3000}).Draw(t, "napus"),
		G:     rapid.IntRange(1, 5).Draw(t, "g"),
		N:     rapid.IntRange(3, 30).Draw(t, "n"),
		Seed:  uint64(rapid.Uint32().Draw(t, "seed")),
	}
}

func runLate(e *fw.Env, c lateCase) {
	fw.Naps(c.Nap, time.Duration(c.NapUS)*time.Microsecond)
	ttl := time.Duration(c.TTL) * time.Microsecond
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(ttl).
		WithCheckInterval(time.Duration(c.Every) * time.Microsecond).Build()
	var expired, kept atomic.Int32
	var wg sync.WaitGroup
	for k := 0; k < c.G; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(c.Seed, uint64(k)))
			there := false      // it was added and may still be there
			var until time.Time // as long it must be there
			for n := 0; n < c.N; n++ {
				time.Sleep(time.Duration(float64(ttl) * []float64{0, 0, 0, 0.3, 0.7, 1, 1.5}[r.IntN(7)]))
				op := []string{"add", "add", "add", "has", "has", "remove", "count"}[r.IntN(7)]
				t0 := time.Now()
				var found bool
				var err error
				count := 0
				switch op {
				case "add":
					found, err = s.Add(k)
					found = !found
				case "has":
					found, err = s.Has(k)
				case "remove":
					found, err = s.Remove(k)
				case "count":
					count = s.Count()
				}
				t1 := time.Now()
				sure := there && t1.Before(until)
				if err != nil {
					e.Report("%s(%d): %v", op, k, err)
				}
				if op == "count" {
					if sure && count < 1 || count > c.G {
						e.Report("Count = %d; %d elements in use, element %d there: %v", count, c.G, k, sure)
					}
					continue
				}
				if sure {
					kept.Add(1)
					if !found {
						e.Report("%s(%d) did not find the element %v before the end of its life of %v", op, k, until.Sub(t1), ttl)
					}
				}
				if found && !there {
					e.Report("%s(%d) found the element, which was not there", op, k)
				}
				if there && !found {
					expired.Add(1)
				}
				switch {
				case op == "remove":
					there = false
				case op == "add" && !found:
					there, until = true, t0.Add(ttl)
				case !found:
					there = false
				}
			}
		}()
	}
	wg.Wait()
	for i := 0; s.Count() > 0; i++ {
		if i > 10000 {
			e.Fail("long after the life of %v the set counts %d elements", ttl, s.Count())
		}
		time.Sleep(ttl/4 + time.Millisecond)
	}
	e.NonTrivial(expired.Load() > 0 && kept.Load() > 0)
}

func init() {
	fw.Add("C51", "late", "an element expired, and one was used in time", genLate, runLate,
		[]fw.Run{fw.Plain(200), fw.Sched(800), fw.Race(150)}, fw.RealTime(), fw.Reps(10))
}
