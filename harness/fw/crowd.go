package fw

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Values of every kind: nothing, zero, nil pointers and slices in an interface,
// values that cannot be compared, a value that is not equal to itself.

type oddStruct struct {
	A int
	B []int
}
type oddErr struct{ n int }

func (*oddErr) Error() string { return "odd" }

func Odd(i int) any {
	switch i % 14 {
	case 0:
		return nil
	case 1:
		return 0
	case 2:
		return ""
	case 3:
		return (*int)(nil)
	case 4:
		return []int(nil)
	case 5:
		return []int{i}
	case 6:
		return map[string]int{"a": i}
	case 7:
		return (*oddErr)(nil)
	case 8:
		return oddStruct{i, []int{i}}
	case 9:
		return math.NaN()
	case 10:
		return false
	case 11:
		return struct{}{}
	case 12:
		return fmt.Sprint(i)
	}
	return i
}

// SameOdd reports whether two of these are the same.
func SameOdd(a, b any) bool {
	if x, ok := a.(float64); ok && math.IsNaN(x) {
		y, ok := b.(float64)
		return ok && math.IsNaN(y)
	}
	return reflect.DeepEqual(a, b)
}

func ShowOdd(a any) string { return fmt.Sprintf("%T(%v)", a, a) }

// A crowd: many that wait for many keys on the virtual clock, each key getting
// its value once. Who waits gets it when it is there, all of them.
type CrowdCase struct {
	Seed uint64 `json:"seed"`
	Keys int    `json:"keys"`
	Per  int    `json:"per"`  // at most so many per key
	Span int    `json:"span"` // everything begins within so many ms
	Lost int    `json:"lost"` // percentage of the keys that never get a value
}

func GenCrowd(t *rapid.T) CrowdCase {
	c := CrowdCase{Seed: rapid.Uint64().Draw(t, "seed"),
		Keys: rapid.SampledFrom([]int{1, 1, 2, 5, 40, 150, 300}).Draw(t, "keys"),
		Per:  rapid.SampledFrom([]int{1, 2, 5, 40, 300}).Draw(t, "per"),
		Span: rapid.SampledFrom([]int{1, 5, 50, 900}).Draw(t, "span"),
		Lost: rapid.SampledFrom([]int{0, 0, 10, 50}).Draw(t, "lost")}
	c.Per = min(c.Per, max(1, 400/c.Keys))
	return c
}

// CrowdTimeout is what waits may take in ms, longer than any span.
const CrowdTimeout = 1000

// Crowd plays the case. A wait returns what it was given; set gives key k the value Odd(k+shift).
// With after, the value comes only after somebody waits for it, and comes is the time from the
// first wait to the value (for those that produce the value themselves set is nil).
func Crowd(e *Env, c CrowdCase, after bool, wait func(k, comes int, v any) any, set func(k int, v any), lost func(k int, got any) string) {
	r := rand.New(rand.NewPCG(c.Seed, 3))
	shift := r.IntN(100)
	type act struct {
		k, at, comes int
		set          bool
	}
	type key struct {
		first, at int // of the first wait, of the value
		lost      bool
	}
	var acts []act
	keys := make([]key, c.Keys)
	for k := range keys {
		x := &keys[k]
		x.first = c.Span
		n := 1 + r.IntN(c.Per)
		if r.IntN(2) == 0 {
			n = c.Per
		}
		from := len(acts)
		for range n {
			a := act{k: k, at: r.IntN(c.Span)}
			x.first = min(x.first, a.at)
			acts = append(acts, a)
		}
		comes := r.IntN(c.Span)
		x.at = comes
		if after {
			comes++
			x.at = x.first + comes
		}
		for i := range acts[from:] {
			acts[from+i].comes = comes
		}
		if set != nil {
			if x.lost = r.IntN(100) < c.Lost; !x.lost {
				acts = append(acts, act{k: k, at: x.at, set: true})
			}
		}
	}
	r.Shuffle(len(acts), func(i, j int) { acts[i], acts[j] = acts[j], acts[i] })
	start := time.Now()
	type res struct {
		act
		v  any
		t1 int
	}
	var mu sync.Mutex
	var out []res
	for _, a := range acts {
		go e.Main(func() {
			time.Sleep(time.Duration(a.at) * time.Millisecond)
			v := Odd(a.k + shift)
			if a.set {
				set(a.k, v)
				return
			}
			got := wait(a.k, a.comes, v)
			mu.Lock()
			defer mu.Unlock()
			out = append(out, res{a, got, int(time.Since(start) / time.Millisecond)})
		})
	}
	Sleep((2*CrowdTimeout + 1000) * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	most, waits := map[int]int{}, 0
	for _, a := range acts {
		if !a.set {
			waits++
			most[a.k]++
			LabelCrowd(e, most[a.k])
		}
	}
	if len(out) != waits {
		e.Fail("%d of %d that waited for one of %d keys never returned", waits-len(out), waits, c.Keys)
	}
	for _, x := range out {
		k := keys[x.k]
		if k.lost {
			if s := lost(x.k, x.v); s != "" {
				e.Fail("key %d, which nobody gives a value, waited for at %d ms: %s", x.k, x.at, s)
			}
			if want := k.first + CrowdTimeout; x.t1 != want {
				e.Fail("key %d, which nobody gives a value, waited for at %d ms, first at %d ms: returned at %d ms, want %d", x.k, x.at, k.first, x.t1, want)
			}
			continue
		}
		if want := Odd(x.k + shift); !SameOdd(x.v, want) {
			e.Fail("key %d, which gets %s at %d ms, waited for at %d ms: got %s at %d ms", x.k, ShowOdd(want), k.at, x.at, ShowOdd(x.v), x.t1)
		}
		if want := max(x.at, k.at); x.t1 != want {
			e.Fail("key %d, which gets its value at %d ms, waited for at %d ms: returned at %d ms, one of %d that wait for it", x.k, k.at, x.at, x.t1, most[x.k])
		}
	}
	e.LabelIf(c.Keys >= 40, "40 keys or more")
	e.NonTrivial(waits > 30)
}

// LabelCrowd notes how many wait for one key.
func LabelCrowd(e *Env, n int) {
	e.LabelIf(n > 30, "more than 30 wait for one key")
	e.LabelIf(n > 100, "more than 100 wait for one key")
}
