package guava

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// ------------------------------------------------ C35: loads, concurrently

type loadCase struct {
	Lock  bool    `json:"lock"`
	Old   int     `json:"old,omitempty"`  // a map that is full of that many other keys
	Kind  string  `json:"kind,omitempty"` // read, write: timeouts that are not reached
	Unl   bool    `json:"unl,omitempty"`  // an unload function
	Fail  []int   `json:"fail"`           // the first n loads of key i fail
	Panic []int   `json:"panic"`          // the n loads of key i after those panic
	Exit  bool    `json:"exit,omitempty"` // or end their goroutine
	Spin  int     `json:"spin"`
	Thr   [][]int `json:"thr"` // keys to Get; negative: Set of key -k-1
}

func genLoadConc(t *rapid.T) loadCase {
	c := loadCase{Lock: rapid.Bool().Draw(t, "lock"), Spin: rapid.IntRange(0, 3).Draw(t, "spin")}
	top := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "top")
	k := rapid.IntRange(0, top)
	if rapid.IntRange(0, 2).Draw(t, "sets") == 0 {
		k = rapid.IntRange(-top-1, top)
	}
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(k, 1, 6), 2, 6).Draw(t, "thr")
	for i := 0; i <= top; i++ {
		c.Fail = append(c.Fail, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 100}).Draw(t, "fail"))
		c.Panic = append(c.Panic, rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "panic"))
	}
	c.Exit = fw.Pct(t, "exit", 25)
	if rapid.Bool().Draw(t, "full") {
		c.Old = top + 1 + rapid.IntRange(0, 2).Draw(t, "extra")
	}
	c.Kind = rapid.SampledFrom([]string{"", "", "read", "write"}).Draw(t, "kind")
	c.Unl = rapid.Bool().Draw(t, "unl")
	return c
}

func runLoadConc(e *fw.Env, c loadCase) {
	fw.Repeat(e, 3, func() { runLoadOnce(e, c) })
}

func runLoadOnce(e *fw.Env, c loadCase) {
	var calls, inside, good [4]atomic.Int32
	var mu sync.Mutex
	made := map[int]map[int]bool{} // key -> values its loader or a Set produced
	errs := map[error]int{}        // errors the loader returned -> key
	setAny := map[int]bool{}       // keys some thread Sets
	var overlapped, fell atomic.Bool
	for i := range c.Fail {
		made[i] = map[int]bool{}
	}
	for _, ks := range c.Thr {
		for _, k := range ks {
			if k < 0 {
				setAny[-k-1] = true
			}
		}
	}
	boom := errors.New("boom")
	// The old entries go first, and are as many as there is room for: what the
	// threads use is not evicted.
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	b := collections.NewGuavaMap[int, int]().WithContext(ctx).WithMaxCount(c.Old)
	switch c.Kind {
	case "read":
		b = b.WithReadTimeout(time.Hour)
	case "write":
		b = b.WithWriteTimeout(time.Hour)
	}
	unloaded := make(chan int, 100)
	if c.Unl {
		b = b.WithUnloadFunc(func(k, v int) { unloaded <- k })
	}
	m := b.WithLockLoad(c.Lock).WithLoadFunc(func(k int) (int, error) {
		n := int(calls[k].Add(1))
		if inside[k].Add(1) > 1 {
			overlapped.Store(true)
			if c.Lock {
				e.Report("two loads of key %d run at once", k)
			}
		}
		defer inside[k].Add(-1)
		for i := 0; i < c.Spin; i++ {
			runtime.Gosched()
		}
		if n <= c.Fail[k] {
			err := fmt.Errorf("load %d of key %d failed", n, k)
			mu.Lock()
			errs[err] = k
			mu.Unlock()
			fell.Store(true)
			return 777, err
		}
		if n <= c.Fail[k]+c.Panic[k] {
			fell.Store(true)
			if c.Exit {
				runtime.Goexit()
			}
			panic(boom)
		}
		good[k].Add(1)
		v := 1000*(k+1) + n
		mu.Lock()
		made[k][v] = true
		mu.Unlock()
		return v, nil
	}).Build()
	for i := range c.Old {
		m.Set(1000+i, i)
	}
	type got struct {
		k, v int
	}
	gots := make([][]got, len(c.Thr))
	var wg sync.WaitGroup
	start := make(chan struct{})
	var waiting atomic.Bool
	for t, ks := range c.Thr {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n, k := range ks {
				if k < 0 {
					k = -k - 1
					v := 100000*(t+1) + n
					mu.Lock()
					made[k][v] = true
					mu.Unlock()
					m.Set(k, v)
					continue
				}
				if inside[k].Load() > 0 {
					waiting.Store(true)
				}
				fw.Apart(c.Exit, func() {
					defer func() {
						if r := recover(); r != nil && r != boom {
							panic(r)
						}
					}()
					v, err := m.Get(k)
					if err != nil {
						mu.Lock()
						of, ok := errs[err]
						mu.Unlock()
						if !ok || of != k || v != 0 {
							e.Report("Get(%d) = %d, %v, which no load of that key returned (an error comes with the zero value)", k, v, err)
						}
						return
					}
					mu.Lock()
					ok := made[k][v]
					mu.Unlock()
					if !ok {
						e.Report("Get(%d) = %d, which no load and no Set of that key produced", k, v)
					}
					gots[t] = append(gots[t], got{k, v})
				})
			}
		}()
	}
	close(start)
	wg.Wait()
	e.NonTrivial(waiting.Load())
	e.LabelIf(overlapped.Load(), "loads overlapped (LockLoad off)")
	e.LabelIf(fell.Load(), "a load failed or panicked")
	final := m.GetStored()
	if c.Old > 0 {
		e.Label("full map")
		young := 0
		for k := range final {
			if k < 1000 {
				young++
			}
		}
		if len(final) != c.Old {
			e.Fail("a map full of %d entries has %d when %d others were loaded or set", c.Old, len(final), young)
		}
		for i := range c.Old {
			if v, ok := final[1000+i]; ok != (i >= young) || ok && v != i {
				e.Fail("%d entries came to a map full of %d others: the other number %d is there: %v, with %d", young, c.Old, i, ok, v)
			}
		}
		if c.Unl {
			seen := map[int]bool{}
			for range young {
				k := <-unloaded
				if seen[k] || k < 1000 || k >= 1000+young {
					e.Fail("key %d was unloaded, again: %v; %d entries came to a map full of %d others from 1000 on", k, seen[k], young, c.Old)
				}
				seen[k] = true
			}
		}
	}
	first := map[int]int{}
	for _, gs := range gots {
		for _, g := range gs {
			if v, ok := first[g.k]; ok && v != g.v && !setAny[g.k] {
				e.Fail("key %d was read as %d and as %d; nothing replaced it", g.k, v, g.v)
			}
			first[g.k] = g.v
		}
	}
	for k := range c.Fail {
		v, ok := final[k]
		if n := good[k].Load(); c.Lock && n > 1 {
			e.Fail("with LockLoad key %d was loaded %d times with success, and never left the map", k, n)
		} else if n > 0 && !ok {
			e.Fail("key %d was loaded and is not there", k)
		}
		if ok && !made[k][v] {
			e.Fail("key %d holds %d, which no load and no Set of that key produced", k, v)
		}
		if w, read := first[k]; read && !setAny[k] && w != v {
			e.Fail("key %d was read as %d and now holds %d; nothing replaced it", k, w, v)
		}
		if !ok && (setAny[k] || good[k].Load() > 0) {
			e.Fail("key %d was set or loaded and is not there", k)
		}
	}
}

// a load does not keep the map from working: the loader may use other keys,
// and other goroutines' calls for other keys go through while it runs

type busyCase struct {
	Lock bool     `json:"lock"`
	Mine []string `json:"mine"`  // what the loader does itself
	Over []string `json:"other"` // what another goroutine does meanwhile
	Upd  bool     `json:"upd"`   // the busy function is LockForUpdate's
}

func genBusy(upd bool) func(*rapid.T) busyCase {
	return func(t *rapid.T) busyCase {
		op := rapid.SampledFrom([]string{"get-there", "get-load", "set", "has", "create", "delete", "size", "stored", "update"})
		return busyCase{
			Lock: rapid.Bool().Draw(t, "lock"),
			Mine: rapid.SliceOfN(op, 0, 4).Draw(t, "mine"),
			Over: rapid.SliceOfN(op, 1, 5).Draw(t, "other"),
			Upd:  upd,
		}
	}
}

func runBusy(e *fw.Env, c busyCase) {
	var m *collections.GuavaMap[int, int]
	act := func(ops []string, base int) {
		for i, o := range ops {
			k := base + i
			switch o {
			case "get-there":
				m.Set(k, 5)
				if v, _ := m.Get(k); v != 5 {
					e.Report("Get of a key set to 5 = %d while another key is busy", v)
				}
			case "get-load":
				if v, err := m.Get(k); err != nil || v != 10*k {
					e.Report("Get(%d) = %d, %v while another key is busy", k, v, err)
				}
			case "set":
				m.Set(k, 1)
			case "has":
				m.Has(k)
			case "create":
				m.HasOrCreate(k, 1)
			case "delete":
				m.Delete(k)
			case "size":
				m.Size()
			case "stored":
				m.GetStored()
			case "update":
				m.LockForUpdate(k, func() int { return 3 })
			}
		}
	}
	in, others := make(chan struct{}), make(chan struct{})
	b := collections.NewGuavaMap[int, int]().WithLockLoad(c.Lock).WithLoadFunc(func(k int) (int, error) {
		if k == 0 {
			close(in)
			act(c.Mine, 10)
			<-others // if the other goroutine cannot go on, everything hangs: the watchdog reports it
		}
		return 10 * k, nil
	})
	m = b.Build()
	go func() {
		<-in
		act(c.Over, 100)
		close(others)
	}()
	if c.Upd {
		got := m.LockForUpdate(0, func() int {
			close(in)
			if v, err := m.Get(50); v != 500 || err != nil {
				e.Report("Get(50) = %d, %v within an update of another key", v, err)
			}
			act(c.Mine, 10)
			<-others
			return 4
		})
		if v, err := m.Get(0); got != 4 || v != 4 || err != nil {
			e.Fail("LockForUpdate returned %d, then Get = %d, %v; the update returned 4", got, v, err)
		}
	} else if v, err := m.Get(0); v != 0 || err != nil {
		e.Fail("Get = %d, %v", v, err)
	}
	e.NonTrivial(true)
	e.LabelIf(len(c.Mine) > 0, "the function uses the map itself")
}

// ------------------------------------------------ C36: LockForUpdate

type updOp struct {
	Op   string `json:"op"`
	K    int    `json:"k,omitempty"`
	Spin int    `json:"spin,omitempty"`
	Boom bool   `json:"boom,omitempty"`
	Exit bool   `json:"exit,omitempty"` // ends its goroutine in place of a panic
}
type updCase struct {
	Pure bool      `json:"pure"` // updates only: nothing may be lost
	Max  int       `json:"max,omitempty"`
	Kind string    `json:"kind,omitempty"`
	T    int       `json:"t,omitempty"` // microseconds
	Load bool      `json:"load,omitempty"`
	Unl  bool      `json:"unl,omitempty"`
	Thr  [][]updOp `json:"thr"`
}

func genUpd(t *rapid.T) updCase {
	c := updCase{Pure: rapid.Bool().Draw(t, "pure"), Unl: rapid.Bool().Draw(t, "unl"), Load: rapid.Bool().Draw(t, "load")}
	names := []string{"update"}
	if !c.Pure {
		names = []string{"update", "update", "update", "delete", "clear", "set", "get", "has", "create"}
		c.Max = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "max")
		c.Kind = rapid.SampledFrom([]string{"", "", "read", "write"}).Draw(t, "kind")
		if c.Kind != "" {
			c.T = rapid.SampledFrom([]int{1, 20, 200}).Draw(t, "t")
		}
	}
	top := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "top")
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) updOp {
		return updOp{
			Op: rapid.SampledFrom(names).Draw(t, "op"), K: rapid.IntRange(0, top).Draw(t, "k"),
			Spin: rapid.IntRange(0, 4).Draw(t, "spin"), Boom: fw.Pct(t, "boom", 5), Exit: fw.Pct(t, "exit", 25),
		}
	}), 1, 12), 2, 6).Draw(t, "thr")
	return c
}

func runUpd(e *fw.Env, c updCase) {
	b := collections.NewGuavaMap[int, int]()
	if c.Max > 0 {
		b = b.WithMaxCount(c.Max)
	}
	switch c.Kind {
	case "read":
		b = b.WithReadTimeout(time.Duration(c.T) * time.Microsecond)
	case "write":
		b = b.WithWriteTimeout(time.Duration(c.T) * time.Microsecond)
	}
	if c.Load {
		b = b.WithLoadFunc(func(k int) (int, error) { return 0, nil })
	}
	if c.Unl {
		b = b.WithUnloadFunc(func(int, int) {})
	}
	m := b.Build()
	var inside, done [3]atomic.Int32
	var waited atomic.Bool
	boom := errors.New("boom")
	var wg sync.WaitGroup
	start := make(chan struct{})
	for t, ops := range c.Thr {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n, o := range ops {
				switch o.Op {
				case "update":
					if inside[o.K].Load() > 0 {
						waited.Store(true)
					}
					fw.Apart(o.Exit, func() {
						defer func() {
							if r := recover(); r != nil && r != boom {
								panic(r)
							}
						}()
						ret := 0
						got := m.LockForUpdate(o.K, func() int {
							if inside[o.K].Add(1) != 1 {
								e.Report("two updates of key %d run at once", o.K)
							}
							defer inside[o.K].Add(-1)
							v, _ := m.Get(o.K)
							for i := 0; i < o.Spin; i++ {
								runtime.Gosched()
							}
							if o.Boom {
								if o.Exit {
									runtime.Goexit()
								}
								panic(boom)
							}
							if c.Pure {
								ret = v + 1
							} else {
								ret = 1000*(t+1) + n
							}
							done[o.K].Add(1)
							return ret
						})
						if got != ret {
							e.Report("LockForUpdate(%d) returned %d, its function %d", o.K, got, ret)
						}
					})
				case "delete":
					m.Delete(o.K)
				case "clear":
					m.Clear()
				case "set":
					m.Set(o.K, 1)
				case "get":
					m.Get(o.K)
				case "has":
					m.Has(o.K)
				case "create":
					m.HasOrCreate(o.K, 2)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	e.NonTrivial(waited.Load())
	if c.Pure {
		got := m.GetStored()
		for k := range done {
			n := int(done[k].Load())
			v, ok := got[k]
			if v != n || !c.Load && ok != (n > 0) {
				e.Fail("%d increments of key %d, which holds %d (there: %v)", n, k, v, ok)
			}
		}
	}
	// nothing is stuck
	for k := 0; k < 3; k++ {
		m.LockForUpdate(k, func() int { return 1 })
	}
}

// ------------------------------------------------ C37: linearizable

type linOp struct {
	Op string `json:"op"`
	K  int    `json:"k,omitempty"`
	V  int    `json:"v,omitempty"`
}
type linCase struct {
	Max    int       `json:"max,omitempty"`
	Load   bool      `json:"load,omitempty"`
	Lock   bool      `json:"lock,omitempty"`
	Unload bool      `json:"unload,omitempty"`
	Kind   string    `json:"kind,omitempty"` // a timeout of an hour
	Thr    [][]linOp `json:"thr"`
}

func genLin(t *rapid.T) linCase {
	c := linCase{
		Max:    rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "max"),
		Load:   rapid.Bool().Draw(t, "load"),
		Lock:   rapid.Bool().Draw(t, "lock"),
		Unload: rapid.Bool().Draw(t, "unload"),
		Kind:   rapid.SampledFrom([]string{"", "read", "write"}).Draw(t, "kind"),
	}
	top := rapid.SampledFrom([]int{0, 1, 2, 4}).Draw(t, "top")
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) linOp {
		o := linOp{Op: rapid.SampledFrom([]string{"set", "set", "get", "get", "has", "create", "create", "update", "delete", "size", "stored", "clear"}).Draw(t, "op")}
		switch o.Op {
		case "size", "stored", "clear":
		default:
			o.K = rapid.IntRange(0, top).Draw(t, "k")
			if o.Op == "set" || o.Op == "create" || o.Op == "update" {
				o.V = rapid.IntRange(1, 7).Draw(t, "v")
			}
		}
		return o
	}), 1, 6), 2, 4).Draw(t, "thr")
	return c
}

type vok struct {
	V  int
	OK bool
}

// The state is the entries in order of arrival: key letter, value digit.
func linStep(c linCase) func(string, linOp, any) (bool, string) {
	return func(st string, o linOp, out any) (bool, string) {
		k := byte('A' + o.K)
		at := -1
		for i := 0; i < len(st); i += 2 {
			if st[i] == k {
				at = i
			}
		}
		has := at >= 0
		put := func(v int) string {
			x := string([]byte{k, byte('0' + v)})
			if has {
				return st[:at] + x + st[at+2:]
			}
			s := st
			if c.Max > 0 && len(s) >= 2*c.Max {
				s = s[2:]
			}
			return s + x
		}
		switch o.Op {
		case "set":
			return true, put(o.V)
		case "update":
			return out == o.V, put(o.V)
		case "get":
			if has {
				return out == int(st[at+1]-'0'), st
			}
			if c.Load {
				return out == 8, put(8)
			}
			return out == 0, st
		case "has":
			return out == has, st
		case "create":
			if has {
				return out == true, st
			}
			return out == false, put(o.V)
		case "delete":
			if has {
				return true, st[:at] + st[at+2:]
			}
			return true, st
		case "size":
			return out == len(st)/2, st
		case "stored":
			return out == sorted(st), st
		case "clear":
			return true, ""
		}
		panic("op " + o.Op)
	}
}

func sorted(st string) string {
	var p []string
	for i := 0; i < len(st); i += 2 {
		p = append(p, st[i:i+2])
	}
	sort.Strings(p)
	return strings.Join(p, "")
}

func runLin(e *fw.Env, c linCase) {
	fw.Repeat(e, 3, func() {
		b := collections.NewGuavaMap[int, int]()
		if c.Max > 0 {
			b = b.WithMaxCount(c.Max)
		}
		switch c.Kind {
		case "read":
			b = b.WithReadTimeout(time.Hour)
		case "write":
			b = b.WithWriteTimeout(time.Hour)
		}
		if c.Load {
			b = b.WithLoadFunc(func(k int) (int, error) { runtime.Gosched(); return 8, nil }).WithLockLoad(c.Lock)
		}
		if c.Unload {
			b = b.WithUnloadFunc(func(int, int) {})
		}
		m := b.Build()
		ex := func(_ int, o linOp) any {
			switch o.Op {
			case "set":
				m.Set(o.K, o.V)
			case "update":
				return m.LockForUpdate(o.K, func() int { return o.V })
			case "get":
				v, err := m.Get(o.K)
				if err != nil {
					return err.Error()
				}
				return v
			case "has":
				return m.Has(o.K)
			case "create":
				return m.HasOrCreate(o.K, o.V)
			case "delete":
				m.Delete(o.K)
			case "size":
				return m.Size()
			case "stored":
				s := ""
				for k, v := range m.GetStored() {
					s += string([]byte{byte('A' + k), byte('0' + v)})
				}
				return sorted(s)
			case "clear":
				m.Clear()
			}
			return nil
		}
		hist := fw.Threads(c.Thr, ex)
		e.NonTrivial(fw.Overlaps(hist) > 0)
		fin := []linOp{{Op: "size"}, {Op: "stored"}}
		hist = append(hist, fw.Threads([][]linOp{fin}, ex)...)
		// one more insertion shows the order of arrival
		if c.Max > 0 {
			hist = append(hist, fw.Threads([][]linOp{{{Op: "set", K: 9, V: 1}, {Op: "stored"}, {Op: "set", K: 10, V: 1}, {Op: "stored"}}}, ex)...)
		}
		m.Clear() // ends the timers
		fw.Linearizable(e, "", linStep(c), nil, hist)
	})
}

// lives: concurrent creation, deletion and expiry on the virtual clock; in the
// end every entry that was created has been unloaded exactly once

type lifeOp struct {
	Op string `json:"op"`
	K  int    `json:"k,omitempty"`
	D  int    `json:"d,omitempty"`
}
type lifeCase struct {
	Max  int        `json:"max,omitempty"`
	Kind string     `json:"kind"`
	T    int        `json:"t"` // ms
	Thr  [][]lifeOp `json:"thr"`
}

func genLife(t *rapid.T) lifeCase {
	c := lifeCase{
		Max:  rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "max"),
		Kind: rapid.SampledFrom([]string{"read", "write"}).Draw(t, "kind"),
		T:    rapid.SampledFrom([]int{1, 2, 10}).Draw(t, "t"),
	}
	top := rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "top")
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) lifeOp {
		return lifeOp{
			Op: rapid.SampledFrom([]string{"create", "create", "create", "delete", "get", "has", "size", "stored", "clear"}).Draw(t, "op"),
			K:  rapid.IntRange(0, top).Draw(t, "k"),
			D:  rapid.SampledFrom([]int{0, 0, 0, 1, c.T, c.T, c.T + 1}).Draw(t, "d"),
		}
	}), 1, 10), 1, 5).Draw(t, "thr")
	return c
}

func runLife(e *fw.Env, c lifeCase) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		var mu sync.Mutex
		unloads := map[kv]int{}
		created := map[kv]bool{}
		b := collections.NewGuavaMap[int, int]().WithUnloadFunc(func(k, v int) {
			mu.Lock()
			unloads[kv{k, v}]++
			mu.Unlock()
		})
		if c.Max > 0 {
			b = b.WithMaxCount(c.Max)
		}
		if c.Kind == "read" {
			b = b.WithReadTimeout(time.Duration(c.T) * time.Millisecond)
		} else {
			b = b.WithWriteTimeout(time.Duration(c.T) * time.Millisecond)
		}
		m := b.Build()
		var wg sync.WaitGroup
		for t, ops := range c.Thr {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n, o := range ops {
					if o.D > 0 {
						time.Sleep(time.Duration(o.D) * time.Millisecond)
					}
					v := 1000*(t+1) + n
					switch o.Op {
					case "create":
						if !m.HasOrCreate(o.K, v) {
							mu.Lock()
							created[kv{o.K, v}] = true
							mu.Unlock()
						}
					case "delete":
						m.Delete(o.K)
					case "get":
						if v, err := m.Get(o.K); err != nil || v != 0 && v < 1000 {
							e.Report("Get = %d, %v", v, err)
						}
					case "has":
						m.Has(o.K)
					case "size", "stored":
						n := 0
						if o.Op == "size" {
							n = m.Size()
						} else {
							n = len(m.GetStored())
						}
						if c.Max > 0 && n > c.Max {
							e.Report("%d entries, at most %d are allowed", n, c.Max)
						}
					case "clear":
						m.Clear()
					}
				}
			}()
		}
		wg.Wait()
		fw.Sleep(time.Duration(2*c.T+1) * time.Millisecond)
		if got := m.GetStored(); len(got) > 0 {
			e.Fail("%d ms after the last operation the map still holds %v (timeout %d ms)", 2*c.T+1, got, c.T)
		}
		mu.Lock()
		defer mu.Unlock()
		for x := range created {
			if unloads[x] != 1 {
				e.Fail("the entry %+v was created and left the map, and was unloaded %d times", x, unloads[x])
			}
		}
		for x, n := range unloads {
			if !created[x] {
				e.Fail("%+v was unloaded %d times and never created", x, n)
			}
		}
		e.NonTrivial(len(created) > 1)
	})
}

func init() {
	conc := []fw.Run{fw.Plain(800), fw.Sched(1200), fw.Race(500)}
	fw.Add("C34", "lives", "several entries were created", genLife, runLife, conc, fw.Reps(20))
	fw.Add("C35", "concurrent", "a Get came in while the key was being loaded", genLoadConc, runLoadConc, conc, fw.Reps(20))
	fw.Add("C35", "busy-loader", "other keys are used while a load runs", genBusy(false), runBusy, []fw.Run{fw.Plain(300)})
	fw.Add("C36", "updates", "an update came in while another of its key ran", genUpd, runUpd, conc, fw.Reps(20))
	fw.Add("C36", "busy-update", "other keys are used while an update runs", genBusy(true), runBusy, []fw.Run{fw.Plain(300)})
	fw.Add("C37", "linearizable", "operations of different goroutines overlapped", genLin, runLin, conc, fw.Reps(20))
	fw.Add("C37", "lives", "several entries were created", genLife, runLife, []fw.Run{fw.Sched(400), fw.Race(400)}, fw.Reps(20))
}
