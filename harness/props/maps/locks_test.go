package maps

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// --------------------------------------------- C28 MapMutex, C29 MapRWMutex

// A section is one critical section: it takes the key, and while it holds it
// runs its inner sections, whose keys are larger (so that no schedule of a
// correct lock can deadlock).
type section struct {
	K     int       `json:"k"`
	Read  bool      `json:"r,omitempty"`
	Spin  int       `json:"spin,omitempty"`
	Inner []section `json:"in,omitempty"`
}
type lockCase struct {
	Keys  string      `json:"keys"`
	RW    bool        `json:"rw,omitempty"`
	Thr   [][]section `json:"thr"`
	Stray []int       `json:"stray,omitempty"` // keys unlocked though nobody ever locked them
}

func genSection(t *rapid.T, rw bool, lo, hi, depth int) section {
	s := section{
		K:    rapid.IntRange(lo, hi).Draw(t, "k"),
		Spin: rapid.IntRange(0, 3).Draw(t, "spin"),
	}
	if rw {
		s.Read = rapid.Bool().Draw(t, "read")
	}
	if depth > 0 && s.K < hi && rapid.IntRange(0, 2).Draw(t, "nest") == 0 {
		s.Inner = append(s.Inner, genSection(t, rw, s.K+1, hi, depth-1))
	}
	return s
}

func genLock(rw bool) func(*rapid.T) lockCase {
	return func(t *rapid.T) lockCase {
		c := lockCase{Keys: drawKeyKind(t), RW: rw}
		hi := rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(t, "hi")
		sec := rapid.Custom(func(t *rapid.T) section { return genSection(t, rw, 0, hi, 2) })
		c.Thr = rapid.SliceOfN(rapid.SliceOfN(sec, 1, 12), 2, 6).Draw(t, "thr")
		c.Stray = rapid.SliceOfN(rapid.IntRange(20, 25), 0, 2).Draw(t, "stray")
		return c
	}
}

type locker[K comparable] struct {
	lock, unlock, rlock, runlock func(K)
}

func newLocker[K comparable](rw bool) locker[K] {
	if rw {
		m := collections.NewMapRWMutex[K]()
		return locker[K]{m.Lock, m.Unlock, m.RLock, m.RUnlock}
	}
	m := collections.NewMapMutex[K]()
	return locker[K]{m.Lock, m.Unlock, nil, nil}
}

func runLock(e *fw.Env, c lockCase) {
	switch c.Keys {
	case "int":
		runLockK(e, c, newCodec(intKey))
	case "string":
		runLockK(e, c, newCodec(strKey))
	case "float":
		runLockK(e, c, newCodec(floatKey))
	case "any":
		runLockK(e, c, newCodec(anyKey))
	default:
		runLockK(e, c, newCodec(stKey))
	}
}

func runLockK[K comparable](e *fw.Env, c lockCase, kc codec[K]) {
	l := newLocker[K](c.RW)
	for _, k := range c.Stray {
		l.unlock(kc.of(k))
		if c.RW {
			l.runlock(kc.of(k))
		}
	}
	var writers, readers [32]atomic.Int32
	var plain [32]int // guarded by the locks under test alone
	var want [32]int
	var waited atomic.Bool
	var count func(s section)
	count = func(s section) {
		if !s.Read {
			want[s.K]++
		}
		for _, i := range s.Inner {
			count(i)
		}
	}
	var do func(s section)
	do = func(s section) {
		if writers[s.K].Load() > 0 {
			waited.Store(true)
		}
		if s.Read {
			l.rlock(kc.of(s.K))
			readers[s.K].Add(1)
			if n := writers[s.K].Load(); n != 0 {
				e.Report("a reader is inside key %d together with %d writers", s.K, n)
			}
			x := plain[s.K]
			for i := 0; i < s.Spin; i++ {
				runtime.Gosched()
			}
			for _, in := range s.Inner {
				do(in)
			}
			if plain[s.K] != x {
				e.Report("a reader saw key %d change from %d to %d while it held the read lock", s.K, x, plain[s.K])
			}
			readers[s.K].Add(-1)
			l.runlock(kc.of(s.K))
			return
		}
		l.lock(kc.of(s.K))
		if n := writers[s.K].Add(1); n != 1 {
			e.Report("%d holders are inside key %d", n, s.K)
		}
		if n := readers[s.K].Load(); n != 0 {
			e.Report("a writer is inside key %d together with %d readers", s.K, n)
		}
		x := plain[s.K]
		for i := 0; i < s.Spin; i++ {
			runtime.Gosched()
		}
		for _, in := range s.Inner {
			do(in)
		}
		plain[s.K] = x + 1
		writers[s.K].Add(-1)
		l.unlock(kc.of(s.K))
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, th := range c.Thr {
		for _, s := range th {
			count(s)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, s := range th {
				do(s)
			}
		}()
	}
	close(start)
	wg.Wait()
	for k := range want {
		if plain[k] != want[k] {
			e.Fail("key %d: %d exclusive sections ran, %d took effect", k, want[k], plain[k])
		}
	}
	e.NonTrivial(waited.Load())
	// every key is free again
	for k := 0; k < 8; k++ {
		l.lock(kc.of(k))
	}
	for k := 0; k < 8; k++ {
		l.unlock(kc.of(k))
	}
}

// independence: with some keys held, the others are free; a read lock lets
// other readers in; and a waiter gets the key once its holder lets go
type holdCase struct {
	Keys string `json:"keys"`
	RW   bool   `json:"rw,omitempty"`
	Used int    `json:"used"`           // keys 0..Used-1 are locked and unlocked first
	More int    `json:"more,omitempty"` // and so many others while keys are held
	Held []int  `json:"held"`
	Mode []bool `json:"mode"` // read mode of the n-th held key
	Try  []int  `json:"try"`
}

func genHold(rw bool) func(*rapid.T) holdCase {
	return func(t *rapid.T) holdCase {
		c := holdCase{Keys: drawKeyKind(t), RW: rw, Used: rapid.IntRange(0, 12).Draw(t, "used")}
		if fw.Pct(t, "many", 8) { // more than any table would keep
			c.More = rapid.SampledFrom([]int{60, 300, 1100, 2100, 5000, 9000, 20_000}).Draw(t, "more")
			if rapid.Bool().Draw(t, "before") {
				c.Used = c.More
			}
		}
		c.Held = rapid.SliceOfNDistinct(rapid.IntRange(0, 40), 1, 8, func(i int) int { return i }).Draw(t, "held")
		for range c.Held {
			c.Mode = append(c.Mode, rw && rapid.Bool().Draw(t, "mode"))
		}
		c.Try = rapid.SliceOfN(rapid.IntRange(0, 40), 1, 10).Draw(t, "try")
		return c
	}
}

func runHold(e *fw.Env, c holdCase) {
	switch c.Keys {
	case "int":
		runHoldK(e, c, newCodec(intKey))
	case "string":
		runHoldK(e, c, newCodec(strKey))
	case "float":
		runHoldK(e, c, newCodec(floatKey))
	case "any":
		runHoldK(e, c, newCodec(anyKey))
	default:
		runHoldK(e, c, newCodec(stKey))
	}
}

func runHoldK[K comparable](e *fw.Env, c holdCase, kc codec[K]) {
	l := newLocker[K](c.RW)
	for k := 0; k < c.Used; k++ {
		l.lock(kc.of(k))
		l.unlock(kc.of(k))
	}
	held := map[int]bool{} // key -> held for reading
	var release [64]atomic.Bool
	for i, k := range c.Held {
		held[k] = c.Mode[i]
		if c.Mode[i] {
			l.rlock(kc.of(k))
		} else {
			l.lock(kc.of(k))
		}
	}
	for k := 41; k < 41+c.More; k++ {
		if c.RW && k%3 == 0 {
			l.rlock(kc.of(k))
			l.runlock(kc.of(k))
			continue
		}
		l.lock(kc.of(k))
		l.unlock(kc.of(k))
	}
	if c.More > 0 {
		e.Label("many other keys used meanwhile")
	}
	// free keys: another goroutine must get through while the keys are held
	// (if it cannot, everything blocks and the watchdog reports it)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for _, k := range c.Try {
			read, isHeld := held[k]
			switch {
			case !isHeld:
				l.lock(kc.of(k))
				l.unlock(kc.of(k))
				if c.RW {
					l.rlock(kc.of(k))
					l.runlock(kc.of(k))
				}
			case read:
				e.Label("read lock shared")
				l.rlock(kc.of(k))
				l.rlock(kc.of(k))
				l.runlock(kc.of(k))
				l.runlock(kc.of(k))
			}
		}
	}()
	<-done
	// held keys: a waiter comes in after the release and not before
	var wg sync.WaitGroup
	for i, k := range c.Held {
		for w := 0; w < 2; w++ {
			read := c.RW && (w == 1 && !c.Mode[i])
			wg.Add(1)
			go func() {
				defer wg.Done()
				if read {
					l.rlock(kc.of(k))
				} else {
					l.lock(kc.of(k))
				}
				if !release[k].Load() {
					e.Report("key %d was locked again (%s) while it was held", k, map[bool]string{true: "read", false: "write"}[read])
				}
				if read {
					l.runlock(kc.of(k))
				} else {
					l.unlock(kc.of(k))
				}
			}()
		}
	}
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	for i, k := range c.Held {
		release[k].Store(true)
		if c.Mode[i] {
			l.runlock(kc.of(k))
		} else {
			l.unlock(kc.of(k))
		}
	}
	wg.Wait()
	e.NonTrivial(len(c.Try) > 0)
	e.Label(fmt.Sprintf("held %d", min(len(c.Held), 4)))
}

func init() {
	runs := []fw.Run{fw.Plain(800), fw.Sched(1200), fw.Race(500)}
	fw.Add("C28", "exclusion", "a section began while its key was taken", genLock(false), runLock, runs, fw.Reps(20))
	fw.Add("C28", "independence", "a key is held while others are tried", genHold(false), runHold, runs, fw.Reps(5))
	fw.Add("C29", "exclusion", "a section began while its key was taken", genLock(true), runLock, runs, fw.Reps(20))
	fw.Add("C29", "independence", "a key is held while others are tried", genHold(true), runHold, runs, fw.Reps(5))
}
