package maps

import (
	"context"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// C51, herds: thousands of elements that expire together.

type herdCase struct {
	N      []int `json:"n"` // so many new elements each
	Gap    int   `json:"gap"`
	TTL    int   `json:"ttl"`
	Iv     int   `json:"iv"`
	Remove int   `json:"remove,omitempty"` // every so-manieth is removed at once
}

func genHerd(t *rapid.T) herdCase {
	return herdCase{
		N:      rapid.SliceOfN(rapid.SampledFrom([]int{10, 100, 300, 1100, 2500, 5000}), 1, 3).Draw(t, "n"),
		Gap:    rapid.SampledFrom([]int{0, 1, 10, 60}).Draw(t, "gap"),
		TTL:    rapid.SampledFrom([]int{1, 20, 100}).Draw(t, "ttl"),
		Iv:     rapid.SampledFrom([]int{1, 10, 50, 200}).Draw(t, "iv"),
		Remove: rapid.SampledFrom([]int{0, 0, 2, 5}).Draw(t, "remove")}
}

func runHerd(e *fw.Env, c herdCase) {
	e.LeakIsViolation = true
	ms := time.Millisecond
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(time.Duration(c.TTL) * ms).WithCheckInterval(time.Duration(c.Iv) * ms).Build()
		var born, count []int // of each group
		look := func(now int) {
			lo, hi := 0, 0
			for i, t0 := range born {
				if now < t0+c.TTL {
					lo += count[i]
				}
				if now <= t0+c.TTL+c.Iv {
					hi += count[i]
				}
			}
			if got := s.Count(); got < lo || got > hi {
				e.Fail("at %d ms Count = %d; %d elements are younger than %d ms and %d more may still be there (check every %d ms); groups of %v elements added at %v ms", now, got, lo, c.TTL, hi-lo, c.Iv, count, born)
			}
		}
		now, id := 0, 0
		most := 0
		for _, n := range c.N {
			born, count = append(born, now), append(count, n)
			first := id
			for ; id < first+n; id++ {
				if ok, err := s.Add(id); !ok || err != nil {
					e.Fail("Add(%d) of a new element = %v, %v", id, ok, err)
				}
			}
			if c.Remove > 0 {
				for i := first; i < id; i += c.Remove {
					if ok, err := s.Remove(i); !ok || err != nil {
						e.Fail("Remove(%d) of a present element = %v, %v", i, ok, err)
					}
					count[len(count)-1]--
				}
			}
			most = max(most, n)
			look(now)
			fw.Sleep(time.Duration(c.Gap) * ms)
			now += c.Gap
			look(now)
		}
		for end := now + c.TTL + 2*c.Iv + 5; now < end; {
			d := max(1, min(c.TTL, c.Iv)/2)
			fw.Sleep(time.Duration(d) * ms)
			now += d
			look(now)
		}
		// the keys can be used again
		for i := 0; i < id; i += 1 + id/50 {
			if ok, err := s.Add(i); !ok || err != nil {
				e.Fail("Add(%d) of an expired element = %v, %v", i, ok, err)
			}
		}
		e.NonTrivial(most > 20)
	})
}

func init() {
	fw.Add("C51", "herd", "more than 20 elements expired", genHerd, runHerd, []fw.Run{fw.Plain(20)})
}
