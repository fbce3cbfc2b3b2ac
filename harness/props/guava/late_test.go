package guava

import (
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// Late: in real time, with timeouts of a few milliseconds and goroutines that
// sleep between any two statements of the code (instrumented builds). Each key
// is used by one goroutine only, which knows what must be there.

type lateCase struct {
	Kind  string `json:"kind"`
	T     int    `json:"t"`   // us
	Nap   int    `json:"nap"` // density, of 65536
	NapUS int    `json:"nap_us"`
	G     int    `json:"g"`
	N     int    `json:"n"`
	Load  bool   `json:"load,omitempty"`
	Seed  uint64 `json:"seed"`
}

func genLate(t *rapid.T) lateCase {
	return lateCase{
		Kind:  rapid.SampledFrom([]string{"read", "write"}).Draw(t, "kind"),
		T:     rapid.SampledFrom([]int{50, 500, 2000, 8000}).Draw(t, "t"),
		Nap:   rapid.SampledFrom([]int{0, 300, 1500, 4000}).Draw(t, "nap"),
		NapUS: rapid.SampledFrom([]int{100, 700, 3000}).Draw(t, "napus"),
		G:     rapid.IntRange(1, 5).Draw(t, "g"),
		N:     rapid.IntRange(3, 30).Draw(t, "n"),
		Load:  rapid.Bool().Draw(t, "load"),
		Seed:  uint64(rapid.Uint32().Draw(t, "seed")),
	}
}

func runLate(e *fw.Env, c lateCase) {
	fw.Naps(c.Nap, time.Duration(c.NapUS)*time.Microsecond)
	timeout := time.Duration(c.T) * time.Microsecond
	var mu sync.Mutex
	unloads := map[kv]int{}
	b := collections.NewGuavaMap[int, int]().WithUnloadFunc(func(k, v int) {
		mu.Lock()
		unloads[kv{k, v}]++
		mu.Unlock()
	})
	if c.Kind == "read" {
		b = b.WithReadTimeout(timeout)
	} else {
		b = b.WithWriteTimeout(timeout)
	}
	vals := make([]int, c.G) // the last value of each key
	if c.Load {
		b = b.WithLoadFunc(func(k int) (int, error) { vals[k]++; return vals[k], nil }).WithLockLoad(c.Seed%2 == 0)
	}
	m := b.Build()
	due := map[kv]bool{}   // must have been unloaded once
	maybe := map[kv]bool{} // replaced when its time may have been over
	var expired, kept atomic.Int32
	var wg sync.WaitGroup
	for k := 0; k < c.G; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(c.Seed, uint64(k)))
			v := 0                // the value that may be there; 0 when nothing is
			var until time.Time   // as long it must be there
			here := map[kv]bool{} // due from this goroutine
			left := func() { here[kv{k, v}] = true; v = 0 }
			for n := 0; n < c.N; n++ {
				time.Sleep(time.Duration(float64(timeout) * []float64{0, 0, 0, 0.3, 0.7, 1, 1.5}[r.IntN(7)]))
				op := []string{"set", "set", "update", "create", "create", "get", "get", "has", "delete"}[r.IntN(9)]
				t0 := time.Now()
				was := vals[k]
				found, got := false, 0
				wrote := 0
				switch op {
				case "set":
					vals[k]++
					m.Set(k, vals[k])
					wrote = vals[k]
				case "update":
					vals[k]++
					m.LockForUpdate(k, func() int { return vals[k] })
					wrote = vals[k]
				case "create":
					vals[k]++
					found = m.HasOrCreate(k, vals[k])
					if !found {
						wrote = vals[k]
					}
				case "get":
					g, err := m.Get(k)
					if err != nil {
						e.Report("Get(%d): %v", k, err)
					}
					if c.Load && vals[k] != was {
						if g != vals[k] {
							e.Report("Get(%d) = %d; the load function returned %d", k, g, vals[k])
						}
						wrote = g
					} else {
						found, got = g != 0, g
					}
				case "has":
					found = m.Has(k)
				case "delete":
					m.Delete(k)
				}
				t1 := time.Now()
				sure := v != 0 && t1.Before(until)
				if sure {
					kept.Add(1)
				}
				switch op {
				case "set", "update":
					if v != 0 && !sure {
						mu.Lock()
						maybe[kv{k, v}] = true
						mu.Unlock()
					}
					v, until = wrote, t0.Add(timeout)
				case "delete":
					if v != 0 {
						left()
					}
				default:
					if sure && !found {
						e.Report("%s(%d) did not find the value %d %v before the end of its time (%s timeout %v)", op, k, v, until.Sub(t1), c.Kind, timeout)
					}
					if found && v == 0 {
						e.Report("%s(%d) found %d, and nothing was there", op, k, got)
					}
					if found && op == "get" && got != v {
						e.Report("Get(%d) = %d, want %d", k, got, v)
					}
					if !found && v != 0 {
						expired.Add(1)
						left()
					}
					if wrote != 0 {
						v, until = wrote, t0.Add(timeout)
					} else if found && c.Kind == "read" {
						until = t0.Add(timeout)
					}
				}
			}
			if v != 0 {
				left()
			}
			mu.Lock()
			for x := range here {
				due[x] = true
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	for i := 0; m.Size() > 0; i++ {
		if i > 10000 {
			e.Fail("long after the timeout %v the map holds %v", timeout, m.GetStored())
		}
		time.Sleep(timeout/4 + time.Millisecond)
	}
	// the calls of the unload function run on their own
	for i := 0; ; i++ {
		missing := 0
		mu.Lock()
		for x := range due {
			if unloads[x] == 0 {
				missing++
			}
		}
		mu.Unlock()
		if missing == 0 {
			break
		}
		if i > 5000 {
			e.Fail("%d entries have left the map and were not unloaded", missing)
		}
		time.Sleep(time.Millisecond)
	}
	mu.Lock()
	defer mu.Unlock()
	for x, n := range unloads {
		if n > 1 || !due[x] && !maybe[x] {
			e.Fail("%+v was unloaded %d times (left the map: %v, replaced late: %v)", x, n, due[x], maybe[x])
		}
	}
	e.NonTrivial(expired.Load() > 0 && kept.Load() > 0)
}

func init() {
	fw.Add("C33", "late", "an entry expired, and one was used in time", genLate, runLate,
		[]fw.Run{fw.Plain(200), fw.Sched(1000)}, fw.RealTime(), fw.Reps(10))
	fw.Add("C34", "late", "an entry expired, and one was used in time", genLate, runLate,
		[]fw.Run{fw.Plain(200), fw.Sched(1000), fw.Race(200)}, fw.RealTime(), fw.Reps(10))
}
