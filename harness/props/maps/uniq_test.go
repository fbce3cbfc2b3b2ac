package maps

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"slices"
	"strings"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// ------------------------------------------------ C50..C52 StructUniqSet

// A spec describes a value; equal specs are equal values and others are not.
type spec struct {
	A  int      `json:"a,omitempty"`
	S  string   `json:"s,omitempty"`
	T  string   `json:"t,omitempty"`
	C  []string `json:"c,omitempty"`
	P  int      `json:"p,omitempty"` // 0: nil pointer
	F  float64  `json:"f,omitempty"`
	B  bool     `json:"b,omitempty"`
	In *spec    `json:"in,omitempty"`
	L  int      `json:"l,omitempty"` // so many x's come before S, or before what is in C
}

func (s spec) long() spec {
	s.S = strings.Repeat("x", s.L) + s.S
	return s
}

func (s spec) key() string { b, _ := json.Marshal(s); return string(b) }

type rec struct {
	A  int
	S  string
	T  string
	C  []string
	P  *int
	F  float64
	B  bool
	In inner
}
type inner struct {
	A int
	S string
	L []inner
}

func (s spec) rec() rec {
	s = s.long()
	r := rec{A: s.A, S: s.S, T: s.T, C: s.C, F: s.F, B: s.B}
	if s.P != 0 {
		p := s.P
		r.P = &p
	}
	if s.In != nil {
		r.In = inner{A: s.In.A, S: s.In.S}
		for _, c := range s.In.C {
			r.In.L = append(r.In.L, inner{S: c, A: len(c)})
		}
	}
	return r
}

// anyOf makes a value of one of several types, one to one with the spec.
func (s spec) anyOf() any {
	switch s.A % 5 {
	case 1:
		return s.P*10 + s.A
	case 2:
		return uint(s.P*10 + s.A)
	case 3:
		return s.long().S
	case 4:
		return fmt.Sprint(s.P*10 + s.A)
	}
	return s.rec()
}

func genSpec(t *rapid.T) spec {
	str := rapid.SampledFrom([]string{"", "", "a", "b", "ab", "a b", " ", "0", "\x00", "\xff\xfe", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"})
	s := spec{}
	if fw.Pct(t, "long", 12) {
		s.L = rapid.SampledFrom([]int{1, 100, 1000, 4096, 70000}).Draw(t, "l")
	}
	// few fields at a time, so that values meet again and near misses occur
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "fields"); i < n; i++ {
		switch rapid.IntRange(0, 8).Draw(t, "field") {
		case 0:
			s.A = rapid.SampledFrom([]int{0, 1, -1, 2, 64, 127, 128, 1 << 33}).Draw(t, "a")
		case 1:
			s.S = str.Draw(t, "s")
		case 2:
			s.T = str.Draw(t, "t")
		case 3, 4:
			s.C = rapid.SliceOfN(str, 1, 3).Draw(t, "c")
		case 5:
			s.P = rapid.SampledFrom([]int{0, 1, 2, 64}).Draw(t, "p")
		case 6:
			s.F = rapid.SampledFrom([]float64{0, 1, -1, 0.5, 1e300}).Draw(t, "f")
		case 7:
			s.B = true
		case 8:
			s.In = &spec{A: rapid.IntRange(0, 2).Draw(t, "ia") + 1, S: str.Draw(t, "is"), C: rapid.SliceOfN(str, 0, 2).Draw(t, "ic")}
		}
	}
	return s
}

type uqOp struct {
	Op string `json:"op"`
	V  spec   `json:"v"`
	D  int    `json:"d,omitempty"` // virtual ms
}
type uqCase struct {
	Kind string `json:"kind"`
	Ops  []uqOp `json:"ops"`
}

func uqOps(t *rapid.T, vals []spec, max int) []uqOp {
	return fw.Ops(t, "ops", 1, max, rapid.Custom(func(t *rapid.T) uqOp {
		o := uqOp{Op: rapid.SampledFrom([]string{"add", "add", "add", "has", "has", "remove", "count"}).Draw(t, "op")}
		if o.Op != "count" {
			o.V = rapid.SampledFrom(vals).Draw(t, "v")
		}
		return o
	}))
}

func genUQ(t *rapid.T) uqCase {
	vals := rapid.SliceOfN(rapid.Custom(genSpec), 1, 12).Draw(t, "vals")
	if fw.Pct(t, "twins", 50) {
		// near misses: one value with one thing about it changed
		v := vals[0]
		for range rapid.IntRange(1, 4).Draw(t, "n twins") {
			w := v
			switch rapid.IntRange(0, 5).Draw(t, "twin") {
			case 0:
				w.S += "z"
			case 1:
				w.T += "z"
			case 2:
				w.C = append(slices.Clone(v.C), "z")
			case 3:
				w.F++
			case 4:
				w.P++
			case 5:
				w.A += 5 // of the same type among those of anyOf
			}
			vals = append(vals, w)
		}
	}
	return uqCase{
		Kind: rapid.SampledFrom([]string{"struct", "struct", "pointer", "any", "string", "int", "slice", "bad"}).Draw(t, "kind"),
		Ops:  uqOps(t, vals, 60),
	}
}

func runUQ(e *fw.Env, c uqCase) {
	e.Label("kind " + c.Kind)
	switch c.Kind {
	case "struct":
		runUQV(e, c, spec.rec, spec.key)
	case "pointer":
		runUQV(e, c, func(s spec) *rec { r := s.rec(); return &r }, spec.key)
	case "any":
		runUQV(e, c, spec.anyOf, func(s spec) string {
			switch s.A % 5 {
			case 1:
				return fmt.Sprintf("int %d", s.P*10+s.A)
			case 2:
				return fmt.Sprintf("uint %d", uint(s.P*10+s.A))
			case 3:
				return "string " + s.long().S
			case 4:
				return "string " + fmt.Sprint(s.P*10+s.A)
			}
			return s.key()
		})
	case "string":
		runUQV(e, c, func(s spec) string { return s.long().S + "|" + s.T }, func(s spec) string { return s.long().S + "|" + s.T })
	case "int":
		runUQV(e, c, func(s spec) int { return s.A }, func(s spec) string { return fmt.Sprint(s.A) })
	case "slice":
		many := func(s spec) (l []string) {
			for range s.L / 10 {
				l = append(l, "x")
			}
			return append(l, s.C...)
		}
		runUQV(e, c, many, func(s spec) string { return fmt.Sprintf("%q", many(s)) })
	case "bad":
		// values gob cannot encode: every call is an error and changes nothing
		e.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			s := collections.NewStructUniqSet[func()]().WithContext(ctx).Build()
			for _, o := range c.Ops {
				var ok bool
				var err error
				switch o.Op {
				case "add":
					ok, err = s.Add(func() {})
				case "has":
					ok, err = s.Has(func() {})
				case "remove":
					ok, err = s.Remove(func() {})
				default:
					continue
				}
				if ok || err == nil {
					e.Fail("%s of a value that cannot be encoded returned %v, %v", o.Op, ok, err)
				}
			}
			if s.Count() != 0 {
				e.Fail("Count = %d after failed calls only", s.Count())
			}
		})
	}
}

func runUQV[V any](e *fw.Env, c uqCase, val func(spec) V, key func(spec) string) {
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		s := collections.NewStructUniqSet[V]().WithContext(ctx).Build()
		m := map[string]bool{}
		re := false
		for n, o := range c.Ops {
			var got bool
			var err error
			want, k := false, ""
			if o.Op != "count" {
				k = key(o.V)
				want = m[k]
			}
			switch o.Op {
			case "add":
				got, err = s.Add(val(o.V))
				re = re || want
				want = !want
				m[k] = true
			case "has":
				got, err = s.Has(val(o.V))
			case "remove":
				got, err = s.Remove(val(o.V))
				delete(m, k)
			}
			if err != nil {
				e.Fail("op %d %s %s: %v", n, o.Op, k, err)
			}
			if got != want {
				e.Fail("op %d: %s %s = %v, want %v; members %v", n, o.Op, k, got, want, m)
			}
			if got := s.Count(); got != len(m) {
				e.Fail("after op %d %s %s: Count = %d, members %v", n, o.Op, k, got, m)
			}
		}
		e.NonTrivial(re)
	})
}

// values with maps in them: the same content must be the same element

type uqMapCase struct {
	Keys []string `json:"keys"`
	Deep bool     `json:"deep,omitempty"`
}
type mapRec struct {
	Name string
	M    map[string]int
}
type deepRec struct {
	L []mapRec
}

func genUQMap(t *rapid.T) uqMapCase {
	return uqMapCase{
		Keys: rapid.SliceOfNDistinct(rapid.StringMatching("[a-z]{1,4}"), 0, 6, func(s string) string { return s }).Draw(t, "keys"),
		Deep: rapid.Bool().Draw(t, "deep"),
	}
}

func runUQMap(e *fw.Env, c uqMapCase) {
	e.NonTrivial(len(c.Keys) > 1)
	mk := func() mapRec {
		r := mapRec{Name: "x", M: map[string]int{}}
		for i, k := range c.Keys {
			r.M[k] = i + 1
		}
		return r
	}
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var add, has func() (bool, error)
		var count func() int
		if c.Deep {
			s := collections.NewStructUniqSet[deepRec]().WithContext(ctx).Build()
			add = func() (bool, error) { return s.Add(deepRec{[]mapRec{mk(), mk()}}) }
			has = func() (bool, error) { return s.Has(deepRec{[]mapRec{mk(), mk()}}) }
			count = s.Count
		} else {
			s := collections.NewStructUniqSet[mapRec]().WithContext(ctx).Build()
			add = func() (bool, error) { return s.Add(mk()) }
			has = func() (bool, error) { return s.Has(mk()) }
			count = s.Count
		}
		if ok, err := add(); !ok || err != nil {
			e.Fail("the first Add returned %v, %v", ok, err)
		}
		for i := 0; i < 10; i++ {
			ok, err := has()
			ok2, err2 := add()
			if err != nil || err2 != nil {
				e.Fail("Has: %v, Add: %v", err, err2)
			}
			if !ok || ok2 || count() != 1 {
				msg := fmt.Sprintf("a value with a map of %d entries: Has after Add = %v, second Add = %v, Count = %d", len(c.Keys), ok, ok2, count())
				if len(c.Keys) > 1 {
					e.FailSig("map-with-several-entries", "%s", msg)
				}
				e.Fail("%s", msg)
			}
		}
	})
}

// C51: lifetimes

type ttlCase struct {
	TTL      int    `json:"ttl"`      // virtual ms; -1: the default of 30 minutes
	Interval int    `json:"interval"` // virtual ms; -1: the default of a second
	Cancel   int    `json:"cancel"`   // cancel the context before this operation; -1: never
	Ops      []uqOp `json:"ops"`      // V.A is the element, D how long to wait before
}

func genTTL(t *rapid.T) ttlCase {
	c := ttlCase{Cancel: -1}
	if fw.Pct(t, "defaults", 8) {
		c.TTL, c.Interval = -1, -1
	} else {
		c.TTL = rapid.SampledFrom([]int{0, 1, 5, 10, 50, 100, 300}).Draw(t, "ttl")
		c.Interval = rapid.SampledFrom([]int{1, 3, 10, 50, 100, 500}).Draw(t, "interval")
	}
	if fw.Pct(t, "cancels", 10) {
		c.Cancel = rapid.IntRange(0, 10).Draw(t, "cancel")
	}
	ttl, iv := c.dur()
	top := rapid.IntRange(0, 4).Draw(t, "top")
	waits := []int{0, 0, 0, 1, ttl / 2, ttl - 1, ttl, ttl + 1, iv, iv - 1, iv + 1, ttl + iv, ttl + iv + 1, 2 * (ttl + iv)}
	op := rapid.Custom(func(t *rapid.T) uqOp {
		o := uqOp{Op: rapid.SampledFrom([]string{"add", "add", "add", "has", "has", "remove", "count", "wait"}).Draw(t, "op")}
		if o.Op != "count" && o.Op != "wait" {
			o.V.A = rapid.IntRange(0, top).Draw(t, "v")
		}
		o.D = max(0, rapid.SampledFrom(waits).Draw(t, "d"))
		return o
	})
	if fw.Pct(t, "idles", 20) { // nothing happens for many check intervals
		waits = append(waits, ttl+300*iv)
	}
	n := 40
	if c.TTL < 0 {
		n = 8
	}
	c.Ops = fw.Ops(t, "ops", 1, n, op)
	return c
}

func (c ttlCase) dur() (ttl, iv int) {
	ttl, iv = c.TTL, c.Interval
	if ttl < 0 {
		ttl = 30 * 60 * 1000
	}
	if iv < 0 {
		iv = 1000
	}
	return
}

func runTTL(e *fw.Env, c ttlCase) {
	e.LeakIsViolation = true
	ttl, iv := c.dur()
	e.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		b := collections.NewStructUniqSet[int]().WithContext(ctx)
		if c.TTL >= 0 {
			b = b.WithElementTtl(time.Duration(c.TTL) * time.Millisecond)
		}
		if c.Interval >= 0 {
			b = b.WithCheckInterval(time.Duration(c.Interval) * time.Millisecond)
		}
		s := b.Build()
		start := time.Now()
		born := map[int]int{} // element -> ms of its Add, until it is known to be gone
		cancelled := false
		// what the element is now: surely there, surely gone, or due to go
		state := func(v, now int) string {
			t0, ok := born[v]
			switch {
			case !ok:
				return "gone"
			case now < t0+ttl:
				return "there"
			case cancelled || now <= t0+ttl+iv:
				return "due"
			}
			return "gone"
		}
		expired, fresh := false, false
		for n, o := range c.Ops {
			if n == c.Cancel {
				cancel()
				cancelled = true
				e.Label("cancelled")
			}
			fw.Sleep(time.Duration(o.D) * time.Millisecond)
			now := int(time.Since(start) / time.Millisecond)
			sure, due := 0, 0
			for v := range born {
				switch state(v, now) {
				case "there":
					sure++
				case "due":
					due++
				case "gone":
					expired = true
					delete(born, v)
				}
			}
			if got := s.Count(); got < sure || got > sure+due {
				e.Fail("op %d at %d ms: Count = %d; %d elements are younger than %d ms and %d more may still be there (check every %d ms); born %v", n, now, got, sure, ttl, due, iv, born)
			}
			if o.Op == "count" || o.Op == "wait" {
				continue
			}
			v := o.V.A
			st := state(v, now)
			var got bool
			var err error
			switch o.Op {
			case "add":
				got, err = s.Add(v)
				got = !got // there before
			case "has":
				got, err = s.Has(v)
			case "remove":
				got, err = s.Remove(v)
			}
			if err != nil {
				e.Fail("op %d %s: %v", n, o.Op, err)
			}
			if st == "there" && !got || st == "gone" && got {
				t0, known := born[v]
				e.Fail("op %d at %d ms: %s %d says it is there: %v; added at %d ms (known: %v), lives %d ms, checked every %d ms", n, now, o.Op, v, got, t0, known, ttl, iv)
			}
			switch {
			case o.Op == "add" && !got:
				if expired {
					fresh = true
				}
				born[v] = now
			case !got || o.Op == "remove":
				delete(born, v)
			}
		}
		e.LabelIf(fresh, "added again after others expired")
		e.NonTrivial(expired)
	})
}

// C52: custom identity and concurrency

type uqConcCase struct {
	Custom int      `json:"custom"` // identity is the value modulo this; 0: the default identity
	BadAt  int      `json:"bad"`    // the custom function fails for this value; -1: never
	Check  int      `json:"check"`  // microseconds between expiry checks (nothing expires)
	Thr    [][]hsOp `json:"thr"`
}

func genUQConc(conc bool) func(*rapid.T) uqConcCase {
	return func(t *rapid.T) uqConcCase {
		c := uqConcCase{BadAt: -1, Check: rapid.SampledFrom([]int{20, 100, 1000000}).Draw(t, "check")}
		c.Custom = rapid.SampledFrom([]int{0, 1, 2, 3, 5}).Draw(t, "custom")
		if c.Custom > 0 && fw.Pct(t, "bad", 30) {
			c.BadAt = rapid.IntRange(0, 9).Draw(t, "badat")
		}
		top := rapid.SampledFrom([]int{0, 2, 9}).Draw(t, "top")
		op := rapid.Custom(func(t *rapid.T) hsOp {
			o := hsOp{Op: rapid.SampledFrom([]string{"add", "add", "add", "has", "remove", "count"}).Draw(t, "op")}
			if o.Op != "count" {
				o.K = rapid.IntRange(0, top).Draw(t, "k")
			}
			return o
		})
		if conc {
			c.Thr = rapid.SliceOfN(rapid.SliceOfN(op, 1, 7), 2, 5).Draw(t, "thr")
		} else {
			c.Thr = [][]hsOp{fw.Ops(t, "ops", 1, 40, op)}
		}
		return c
	}
}

var errBad = errors.New("bad value")

type uqOut struct {
	OK  bool
	Err string
}

func runUQConc(e *fw.Env, c uqConcCase) {
	reps := 1
	if len(c.Thr) > 1 {
		reps = 3
	}
	id := func(v int) int {
		if c.Custom > 0 {
			return v % c.Custom
		}
		return v
	}
	fw.Repeat(e, reps, func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		b := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(time.Hour).WithCheckInterval(time.Duration(c.Check) * time.Microsecond)
		if c.Custom > 0 {
			b = b.WithBuildFunc(func(v int, _ ...any) (h [16]byte, err error) {
				if v == c.BadAt {
					return h, errBad
				}
				h[15] = byte(id(v))
				return h, nil
			})
		}
		s := b.Build()
		ex := func(_ int, o hsOp) any {
			var ok bool
			var err error
			switch o.Op {
			case "add":
				ok, err = s.Add(o.K)
			case "has":
				ok, err = s.Has(o.K)
			case "remove":
				ok, err = s.Remove(o.K)
			case "count":
				return s.Count()
			}
			if err != nil {
				if !errors.Is(err, errBad) {
					return uqOut{ok, "another error: " + err.Error()}
				}
				return uqOut{ok, "bad"}
			}
			return uqOut{ok, ""}
		}
		hist := fw.Threads(c.Thr, ex)
		if len(c.Thr) > 1 {
			e.NonTrivial(fw.Overlaps(hist) > 0)
			if c.Check < 1000 {
				time.Sleep(time.Duration(c.Check) * time.Microsecond)
			}
		} else {
			e.NonTrivial(c.Custom > 0)
		}
		fin := []hsOp{{"count", 0}}
		for k := 0; k < 10; k++ {
			fin = append(fin, hsOp{"has", k})
		}
		hist = append(hist, fw.Threads([][]hsOp{fin}, ex)...)
		fw.Linearizable(e, "", func(st string, o hsOp, out any) (bool, string) {
			if o.Op == "count" {
				return out == len(st), st
			}
			if o.K == c.BadAt {
				return out == uqOut{false, "bad"}, st
			}
			k := string(rune('A' + id(o.K)))
			i := 0
			for i < len(st) && st[i] < k[0] {
				i++
			}
			has := i < len(st) && st[i] == k[0]
			switch o.Op {
			case "add":
				if has {
					return out == uqOut{}, st
				}
				return out == uqOut{OK: true}, st[:i] + k + st[i:]
			case "has":
				return out == uqOut{OK: has}, st
			}
			if has {
				return out == uqOut{OK: true}, st[:i] + st[i+1:]
			}
			return out == uqOut{}, st
		}, nil, hist)
	})
}

func init() {
	fw.Add("C50", "histories", "an element was added again", genUQ, runUQ, []fw.Run{fw.Plain(2500)})
	fw.Add("C50", "maps-inside", "a value with a map of two or more entries", genUQMap, runUQMap, []fw.Run{fw.Plain(150)})
	fw.Add("C51", "lifetimes", "an element reached its age", genTTL, runTTL, []fw.Run{fw.Plain(1500), fw.Sched(500), fw.Race(200)})
	fw.Add("C52", "identity", "a custom identity function", genUQConc(false), runUQConc, []fw.Run{fw.Plain(1000)})
	fw.Add("C52", "linearizable", "operations of different goroutines overlapped", genUQConc(true), runUQConc,
		[]fw.Run{fw.Plain(800), fw.Sched(1000), fw.Race(500)}, fw.Reps(20))
}
