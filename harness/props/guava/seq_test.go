package guava

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// One engine runs sequential histories of a GuavaMap on the virtual clock
// against a model; C32, C33, C34 and C35 draw different configurations for it.

type gOp struct {
	Op string `json:"op"`
	K  int    `json:"k,omitempty"`
	D  int    `json:"d,omitempty"` // virtual ms to wait before
	// a set or an update to the value that is there
	Same bool `json:"same,omitempty"`
	// done inside the function given to the operation: the update function, or
	// the load function when the operation makes it run
	In []gOp `json:"in,omitempty"`
}
type gCase struct {
	Max    int    `json:"max,omitempty"`
	Kind   string `json:"kind,omitempty"` // "", "read" or "write" timeout
	T      int    `json:"t,omitempty"`    // of so many ms
	Unload bool   `json:"unload,omitempty"`
	Load   string `json:"load,omitempty"` // "", "ok", "flaky": every second load of a key fails, "zero": loads zero values
	Lock   bool   `json:"lock,omitempty"`
	Cancel int    `json:"cancel,omitempty"` // the context ends before the operation with this number
	Linger bool   `json:"linger,omitempty"` // the unload function takes a millisecond and looks at the map
	Ops    []gOp  `json:"ops"`
}

func gOps(t *rapid.T, c gCase, max int, names []string) []gOp {
	top := rapid.SampledFrom([]int{0, 1, 3, 3, 8}).Draw(t, "top")
	waits := []int{0}
	if c.T > 0 {
		waits = []int{0, 0, 0, 1, c.T / 2, c.T/2 + 1, c.T - 1, c.T, c.T + 1, 2 * c.T}
	}
	one := func(t *rapid.T) gOp {
		o := gOp{Op: rapid.SampledFrom(names).Draw(t, "op"), D: rapid.SampledFrom(waits).Draw(t, "d")}
		if o.Op == "clear" && rapid.IntRange(0, 1).Draw(t, "really") == 0 {
			o.Op = "set"
		}
		if o.Op == "set" || o.Op == "update" {
			o.Same = fw.Pct(t, "same", 25)
		}
		if o.Op != "clear" && o.Op != "size" {
			o.K = rapid.IntRange(0, top).Draw(t, "k")
		}
		return o
	}
	nest := 20
	if slices.Equal(names, withinOps) {
		nest = 60
	}
	in := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) gOp {
		o := one(t)
		if o.Op == "get" && fw.Pct(t, "nested", 20) {
			o.In = []gOp{one(t)}
		}
		return o
	}), 1, 3)
	return fw.Ops(t, "ops", 1, max, rapid.Custom(func(t *rapid.T) gOp {
		o := one(t)
		if (o.Op == "update" || o.Op == "get" && c.Load != "") && fw.Pct(t, "nested", nest) {
			o.In = slices.Clone(in.Draw(t, "in"))
			if o.Op == "get" && fw.Pct(t, "own", 50) { // of the key being loaded
				o.In[0].K, o.In[0].In = o.K, nil
				o.In[0].Op = rapid.SampledFrom([]string{"set", "set", "create", "update", "delete", "has"}).Draw(t, "meanwhile")
			}
		}
		return o
	}))
}

// histories that are mostly updates
var withinOps = []string{"update", "update", "update", "set", "get", "create", "delete", "clear"}

func genWithin(t *rapid.T) gCase {
	c := gCase{
		Max:    rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "max"),
		Kind:   rapid.SampledFrom([]string{"", "", "read", "write"}).Draw(t, "kind"),
		Unload: rapid.Bool().Draw(t, "unload"),
		Load:   rapid.SampledFrom([]string{"", "ok", "flaky"}).Draw(t, "load"),
		Lock:   rapid.Bool().Draw(t, "lock"),
	}
	if c.Kind != "" {
		c.T = rapid.SampledFrom([]int{2, 10, 100}).Draw(t, "t")
	}
	c.Ops = gOps(t, c, 30, withinOps)
	return c
}

var allOps = []string{"set", "set", "set", "get", "get", "has", "create", "create", "update", "delete", "delete", "clear", "size"}

func genContents(t *rapid.T) gCase {
	c := gCase{
		Max:    rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 20}).Draw(t, "max"),
		Unload: rapid.Bool().Draw(t, "unload"),
		Load:   rapid.SampledFrom([]string{"", "ok", "flaky", "zero"}).Draw(t, "load"),
		Lock:   rapid.Bool().Draw(t, "lock"),
	}
	c.Ops = gOps(t, c, 80, allOps)
	return c
}

func genExpiry(t *rapid.T) gCase {
	c := gCase{
		Max:    rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4}).Draw(t, "max"),
		Kind:   rapid.SampledFrom([]string{"read", "write"}).Draw(t, "kind"),
		T:      rapid.SampledFrom([]int{2, 10, 100, 60000}).Draw(t, "t"),
		Unload: rapid.Bool().Draw(t, "unload"),
		Load:   rapid.SampledFrom([]string{"", "", "ok", "flaky"}).Draw(t, "load"),
		Lock:   rapid.Bool().Draw(t, "lock"),
	}
	c.Ops = gOps(t, c, 60, allOps)
	return c
}

func genUnload(t *rapid.T) gCase {
	c := gCase{
		Max:    rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(t, "max"),
		Kind:   rapid.SampledFrom([]string{"", "read", "write"}).Draw(t, "kind"),
		Unload: true,
		Load:   rapid.SampledFrom([]string{"", "ok", "flaky"}).Draw(t, "load"),
		Lock:   rapid.Bool().Draw(t, "lock"),
	}
	if c.Kind != "" {
		c.T = rapid.SampledFrom([]int{2, 10, 100}).Draw(t, "t")
	}
	c.Linger = rapid.Bool().Draw(t, "linger")
	c.Ops = gOps(t, c, 60, allOps)
	return c
}

func genLoadSeq(t *rapid.T) gCase {
	c := gCase{
		Max:    rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "max"),
		Kind:   rapid.SampledFrom([]string{"", "", "read", "write"}).Draw(t, "kind"),
		Unload: rapid.Bool().Draw(t, "unload"),
		Load:   rapid.SampledFrom([]string{"", "ok", "flaky", "flaky", "zero"}).Draw(t, "load"),
		Lock:   rapid.Bool().Draw(t, "lock"),
	}
	if c.Kind != "" {
		c.T = 10
	}
	c.Ops = gOps(t, c, 50, []string{"get", "get", "get", "get", "set", "delete", "create", "has", "clear", "update"})
	return c
}

// The timeout of these maps is never reached.
const farOff = 3600 * 1000 * 1000

func genContext(t *rapid.T) gCase {
	c := gCase{
		Max:    rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(t, "max"),
		Kind:   rapid.SampledFrom([]string{"", "read", "read", "write", "write"}).Draw(t, "kind"),
		Unload: rapid.Bool().Draw(t, "unload"),
		Load:   rapid.SampledFrom([]string{"", "ok", "flaky"}).Draw(t, "load"),
		Lock:   rapid.Bool().Draw(t, "lock"),
	}
	if c.Kind != "" {
		c.T = farOff
	}
	c.Ops = gOps(t, gCase{}, 60, allOps)
	c.Cancel = rapid.IntRange(1, len(c.Ops)).Draw(t, "cancel")
	return c
}

type loadErr struct {
	k, n int
}

func (l *loadErr) Error() string { return fmt.Sprintf("load %d of key %d failed", l.n, l.k) }

type kv struct{ K, V int }

type entry struct {
	v        int
	deadline int // ms, when there is a timeout
}

func runGuava(focus string) func(*fw.Env, gCase) {
	return func(e *fw.Env, c gCase) {
		e.LeakIsViolation = true
		e.Bubble(func() { runGuavaIn(e, c, focus) })
	}
}

func runGuavaIn(e *fw.Env, c gCase, focus string) {
	b := collections.NewGuavaMap[int, int]()
	var m *collections.GuavaMap[int, int]
	if c.Max > 0 {
		b = b.WithMaxCount(c.Max)
	}
	switch c.Kind {
	case "read":
		b = b.WithReadTimeout(time.Duration(c.T) * time.Millisecond)
	case "write":
		b = b.WithWriteTimeout(time.Duration(c.T) * time.Millisecond)
	}
	loads := map[int]int{} // calls by key
	var lastErr *loadErr
	lastVal := 0
	var do func(n string, o gOp)
	onLoad := map[int]func(){} // what the load function is to do
	if c.Load != "" {
		b = b.WithLoadFunc(func(k int) (int, error) {
			loads[k]++
			if f := onLoad[k]; f != nil {
				f()
			}
			lastErr, lastVal = nil, 0
			if c.Load == "flaky" && loads[k]%2 == 1 {
				lastErr = &loadErr{k, loads[k]}
				return 12345, lastErr // a value next to an error must be dropped
			}
			lastVal = 1000000 + k*1000 + loads[k]
			if c.Load == "zero" {
				lastVal = 0
			}
			return lastVal, nil
		}).WithLockLoad(c.Lock)
	}
	var mu sync.Mutex
	var unloads []kv
	if c.Unload {
		b = b.WithUnloadFunc(func(k, v int) {
			mu.Lock()
			unloads = append(unloads, kv{k, v})
			mu.Unlock()
			if c.Linger {
				fw.Linger(time.Millisecond)
				m.Size()
			}
		})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if c.Cancel > 0 {
		b = b.WithContext(ctx)
	}
	m = b.Build()
	start := time.Now()
	defer func() {
		// end what timers remain by letting them run out
		if c.T > 0 && c.T < farOff {
			fw.Sleep(time.Duration(3*c.T) * time.Millisecond)
		}
		if c.Linger {
			fw.Sleep(2 * time.Millisecond)
		}
	}()

	stored := map[int]*entry{}
	var order []int
	var required, optional []kv
	expired, evicted, left, loaded, reloaded := false, false, false, false, false
	heldAtEnd := 0
	leave := func(k int) {
		required = append(required, kv{k, stored[k].v})
		left = true
		delete(stored, k)
		if i := slices.Index(order, k); i >= 0 {
			order = slices.Delete(order, i, i+1)
		}
	}
	now := func() int { return int(time.Since(start) / time.Millisecond) }
	insert := func(k, v int) {
		if c.Max > 0 && len(order) >= c.Max {
			leave(order[0])
			evicted = true
		}
		stored[k] = &entry{v, now() + c.T}
		order = append(order, k)
	}
	read := func(k int) {
		if c.Kind == "read" {
			stored[k].deadline = now() + c.T
		}
	}
	show := func() string {
		s := ""
		for i, k := range order {
			if i == 100 {
				s += fmt.Sprintf(" and %d more", len(order)-i)
				break
			}
			s += fmt.Sprintf(" %d=%d", k, stored[k].v)
			if c.T > 0 {
				s += fmt.Sprintf(" (until %d ms)", stored[k].deadline)
			}
		}
		return fmt.Sprintf("[%s ] at %d ms", s, now())
	}
	val := 0
	same := false
	most, rare := 0, 0
	put := false                    // a load function stored its key
	within, changed := false, false // something was done inside a function; and it changed the key being updated
	updating, loading := map[int]bool{}, map[int]bool{}
	do = func(n string, o gOp) {
		// what would wait for itself, or is left open: loading a key in its own load
		switch {
		case loading[o.K] && o.Op == "get":
			return
		case len(loading) > 0 && o.Op == "clear":
			return
		case o.Op == "update" && updating[o.K]:
			o.Op, o.In = "set", nil
		}
		fw.Sleep(time.Duration(o.D) * time.Millisecond)
		// entries whose deadline is this very instant
		ties := func() (tie []int) {
			for k, x := range stored {
				if c.T > 0 && x.deadline == now() {
					tie = append(tie, k)
				}
			}
			return
		}
		tied := false
		if tie := ties(); len(tie) > 0 {
			tied = len(tie) == 1 && tie[0] == o.K && c.Max == 0 && len(o.In) == 0 && (o.Op == "set" || o.Op == "update" || o.Op == "delete")
			if !tied {
				fw.Sleep(time.Millisecond)
				for len(ties()) > 0 {
					fw.Sleep(time.Millisecond)
				}
			}
		}
		for i := 0; i < len(order); {
			if k := order[i]; c.T > 0 && stored[k].deadline < now() {
				leave(k)
				expired = true
				continue
			}
			i++
		}
		fw.Settle()
		before := show()
		x, has := stored[o.K]
		switch o.Op {
		case "set", "update":
			val++
			val := val
			if o.Same && has {
				val = x.v
				same = true
			}
			final := val
			was, wasThere := 0, has
			if has {
				was = x.v
			}
			if o.Op == "set" {
				m.Set(o.K, val)
			} else {
				calls, val := 0, val
				got := m.LockForUpdate(o.K, func() int {
					calls++
					updating[o.K] = true
					defer delete(updating, o.K)
					for i, in := range o.In {
						within = true
						do(fmt.Sprintf("%s.%d", n, i), in)
					}
					return val
				})
				if got != val || calls != 1 {
					e.Fail("op %s %+v returned %d after %d calls of a function that returns %d", n, o, got, calls, val)
				}
				if x, has = stored[o.K]; len(o.In) > 0 {
					changed = changed || has != wasThere || has && x.v != was
				}
				final = val
			}
			if has {
				if tied {
					optional = append(optional, kv{o.K, x.v})
					e.Label("written at the moment it expires")
				}
				stored[o.K] = &entry{final, now() + c.T}
			} else {
				insert(o.K, final)
			}
		case "get":
			lastErr, lastVal = nil, 0
			callsBefore := loads[o.K]
			if len(o.In) > 0 {
				onLoad[o.K] = func() {
					delete(onLoad, o.K)
					loading[o.K] = true
					defer delete(loading, o.K)
					for i, in := range o.In {
						within = true
						do(fmt.Sprintf("%s.%d", n, i), in)
					}
				}
			}
			v, err := m.Get(o.K)
			delete(onLoad, o.K)
			switch {
			case has:
				if err != nil || v != x.v {
					e.Fail("op %s %+v = %d, %v; map %s", n, o, v, err, before)
				}
				if loads[o.K] != callsBefore {
					e.Fail("op %s %+v: the load function was called for a key that is there; map %s", n, o, before)
				}
				read(o.K)
			case c.Load == "":
				if err != nil || v != 0 {
					e.Fail("op %s %+v of an absent key without load function = %d, %v; map %s", n, o, v, err, before)
				}
			default:
				loaded = true
				reloaded = reloaded || callsBefore > 0
				if loads[o.K] != callsBefore+1 {
					e.Fail("op %s %+v of an absent key called the load function %d times; map %s", n, o, loads[o.K]-callsBefore, before)
				}
				x, meanwhile := stored[o.K] // put there by the load function
				put = put || meanwhile
				if lastErr != nil {
					var le *loadErr
					if !errors.As(err, &le) || le != lastErr || v != 0 {
						e.Fail("op %s %+v = %d, %v; the load function failed with: %v; map %s", n, o, v, err, lastErr, before)
					}
					break
				}
				if meanwhile {
					if err != nil || v != x.v {
						e.Fail("op %s %+v = %d, %v; the load function returned %d, but stored %d; map %s", n, o, v, err, lastVal, x.v, before)
					}
					read(o.K)
					break
				}
				if err != nil || v != lastVal {
					e.Fail("op %s %+v = %d, %v; the load function returned %d; map %s", n, o, v, err, lastVal, before)
				}
				insert(o.K, lastVal)
			}
		case "has":
			if got := m.Has(o.K); got != has {
				e.Fail("op %s %+v = %v; map %s", n, o, got, before)
			}
			if has {
				read(o.K)
			}
		case "create":
			val++
			if got := m.HasOrCreate(o.K, val); got != has {
				e.Fail("op %s %+v = %v; map %s", n, o, got, before)
			}
			if has {
				read(o.K)
			} else {
				insert(o.K, val)
			}
		case "delete":
			if p := fw.Call(func() { m.Delete(o.K) }); p != nil {
				e.Fail("op %s %+v panicked: %v; map %s", n, o, p, before)
			}
			if has {
				leave(o.K)
			}
		case "clear":
			m.Clear()
			for len(order) > 0 {
				leave(order[0])
			}
		case "size":
			if got := m.Size(); got != len(stored) {
				e.Fail("op %s %+v = %d; map %s", n, o, got, before)
			}
		}
		fw.Settle()
		most = max(most, len(stored))
		// the whole content (of a huge map not after every operation); neither call counts as a read
		if len(stored) < 500 || rare%64 == 0 || rare%16 == 0 && len(stored) < 1100 {
			got := m.GetStored()
			ok := len(got) == len(stored) && m.Size() == len(stored)
			for k, x := range stored {
				v, there := got[k]
				ok = ok && there && v == x.v
			}
			if !ok {
				e.Fail("after op %s %+v (tied %v) the map holds %v, size %d; want %s, before: %s", n, o, tied, got, m.Size(), show(), before)
			}
			for k := range got {
				got[k] = -1 // the caller's copy
			}
			if c.Max > 0 && len(got) > c.Max {
				e.Fail("after op %s %+v the map holds %d entries, at most %d are allowed", n, o, len(got), c.Max)
			}
		} else if got := m.Size(); got != len(stored) {
			e.Fail("after op %s %+v the map holds %d entries, want %d", n, o, got, len(stored))
		}
		if len(required) < 64 || rare%max(32, len(required)/4) == 0 {
			checkUnloads(e, c.Unload, &mu, &unloads, required, optional, fmt.Sprintf("after op %s %+v", n, o))
		}
		rare++
	}
	for n, o := range c.Ops {
		if c.Cancel > 0 && n == c.Cancel-1 {
			fw.Sleep(time.Duration(o.D) * time.Millisecond)
			o.D = 0
			cancel()
			e.NoStrays(fmt.Sprintf("when the context is over, before op %d %+v; map %s", n, o, show()))
			e.LabelIf(len(order) > 0, "entries at the end of the context")
			heldAtEnd = len(order)
			if got := m.GetStored(); len(got) != len(order) {
				e.Fail("the end of the context before op %d %+v left %v of the map %s", n, o, got, show())
			}
			checkUnloads(e, c.Unload, &mu, &unloads, required, optional, "at the end of the context")
		}
		do(fmt.Sprint(n), o)
		if c.Cancel > 0 && n >= c.Cancel-1 {
			e.NoStrays(fmt.Sprintf("after op %d %+v, which came after the end of the context", n, o))
		}
	}
	if c.T > 0 && c.T < farOff {
		// everything runs out
		fw.Sleep(time.Duration(c.T+1) * time.Millisecond)
		for len(order) > 0 {
			leave(order[0])
			expired = true
		}
		if got := m.GetStored(); len(got) > 0 {
			e.Fail("%d ms after the last operation the map still holds %v (timeout %d ms)", c.T+1, got, c.T)
		}
	}
	checkUnloads(e, c.Unload, &mu, &unloads, required, optional, "at the end")
	e.LabelIf(expired, "an entry expired")
	e.LabelIf(evicted, "an entry was evicted")
	e.LabelIf(same, "a value written again")
	e.LabelIf(within, "operations inside an update or load function")
	e.LabelIf(put, "a load function stored its key")
	e.LabelIf(changed, "an update function changed its key")
	switch focus {
	case "contents":
		e.NonTrivial(evicted || c.Max == 0 && left)
	case "expiry":
		e.NonTrivial(expired)
	case "unload":
		e.NonTrivial(left)
	case "big":
		e.NonTrivial(most > 32 && left)
	case "context":
		e.NonTrivial(heldAtEnd > 0 && c.Kind != "")
	case "within":
		e.NonTrivial(changed)
	case "load":
		e.NonTrivial(loaded && (reloaded || c.Load == "zero"))
	}
}

// checkUnloads compares the calls of the unload function with those due.
func checkUnloads(e *fw.Env, on bool, mu *sync.Mutex, got *[]kv, required, optional []kv, when string) {
	if !on {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	have := map[kv]int{}
	for _, x := range *got {
		have[x]++
	}
	for _, x := range required {
		have[x]--
	}
	for x, n := range have {
		if n < 0 {
			e.Fail("%s: the entry %+v left the map and was not unloaded; unloaded: %v", when, x, *got)
		}
	}
	for _, x := range optional {
		if have[x] > 0 {
			have[x]--
		}
	}
	for x, n := range have {
		if n > 0 {
			e.Fail("%s: %+v was unloaded %d times too often; unloaded: %v, due: %v", when, x, n, *got, required)
		}
	}
}

// Read and write timeouts together. Which of the two decides is not written
// down anywhere, so an entry must be there until the earlier of the two
// moments they allow and be gone after the later one.

type bothCase struct {
	W   int   `json:"w"`
	R   int   `json:"r"`
	Max int   `json:"max,omitempty"`
	Ops []gOp `json:"ops"`
}

func genBoth(t *rapid.T) bothCase {
	c := bothCase{W: rapid.SampledFrom([]int{2, 10, 25, 100}).Draw(t, "w"), R: rapid.SampledFrom([]int{2, 10, 25, 100}).Draw(t, "r"),
		Max: rapid.SampledFrom([]int{0, 0, 2}).Draw(t, "max")}
	lo, hi := min(c.W, c.R), max(c.W, c.R)
	waits := []int{0, 0, 0, 1, lo / 2, lo/2 + 1, lo - 1, lo + 1, hi / 2, hi - 1, hi + 1}
	c.Ops = fw.Ops(t, "ops", 1, 50, rapid.Custom(func(t *rapid.T) gOp {
		return gOp{Op: rapid.SampledFrom([]string{"set", "set", "get", "get", "has", "create", "update", "delete"}).Draw(t, "op"),
			K: rapid.IntRange(0, 2).Draw(t, "k"), D: rapid.SampledFrom(waits).Draw(t, "d"), Same: fw.Pct(t, "same", 20)}
	}))
	return c
}

func runBoth(e *fw.Env, c bothCase) {
	e.LeakIsViolation = true
	e.Bubble(func() {
		b := collections.NewGuavaMap[int, int]().WithWriteTimeout(time.Duration(c.W) * time.Millisecond).WithReadTimeout(time.Duration(c.R) * time.Millisecond)
		if c.Max > 0 {
			b = b.WithMaxCount(c.Max)
		}
		m := b.Build()
		start := time.Now()
		defer func() { fw.Sleep(time.Duration(4*(c.W+c.R)) * time.Millisecond) }()
		type life struct{ v, wrote, used int }
		stored := map[int]*life{}
		now := func() int { return int(time.Since(start) / time.Millisecond) }
		lo := func(x *life) int { return min(x.wrote+c.W, x.used+c.R) }
		hi := func(x *life) int { return max(x.wrote+c.W, x.used+c.R) }
		look := func(when string) {
			got := m.GetStored()
			for k, x := range stored {
				v, there := got[k]
				at := fmt.Sprintf("%s, at %d ms, with key %d written at %d ms and last used at %d ms (write timeout %d, read timeout %d)", when, now(), k, x.wrote, x.used, c.W, c.R)
				switch {
				case there && v != x.v:
					e.Fail("%s the value is %d, want %d", at, v, x.v)
				case !there && c.Max == 0 && now() < lo(x):
					e.Fail("%s the entry is gone", at)
				case there && now() > hi(x):
					e.Fail("%s the entry is still there", at)
				}
				if !there {
					e.LabelIf(now() >= lo(x), "an entry expired")
					if now() >= lo(x) {
						e.NonTrivial(true)
					}
					delete(stored, k)
				}
			}
			for k, v := range got {
				if stored[k] == nil {
					e.Fail("%s the map holds %d=%d, which had gone or was never put", when, k, v)
				}
			}
			if c.Max > 0 && len(got) > c.Max {
				e.Fail("%s the map holds %v, at most %d entries are allowed", when, got, c.Max)
			}
		}
		val := 0
		for n, o := range c.Ops {
			fw.Sleep(time.Duration(o.D) * time.Millisecond)
			look(fmt.Sprintf("before op %d %+v", n, o))
			x := stored[o.K]
			val++
			val := val
			if o.Same && x != nil {
				val = x.v
			}
			switch o.Op {
			case "set":
				m.Set(o.K, val)
				stored[o.K] = &life{val, now(), now()}
			case "update":
				m.LockForUpdate(o.K, func() int { return val })
				stored[o.K] = &life{val, now(), now()}
			case "get":
				v, err := m.Get(o.K)
				if want := 0; err != nil || x != nil && v != x.v || x == nil && v != want {
					e.Fail("op %d %+v = %d, %v", n, o, v, err)
				}
				if x != nil {
					x.used = now()
				}
			case "has", "create":
				got := false
				if o.Op == "has" {
					got = m.Has(o.K)
				} else {
					got = m.HasOrCreate(o.K, val)
				}
				if got != (x != nil) {
					e.Fail("op %d %+v = %v, the entry was there a moment before: %v", n, o, got, x != nil)
				}
				if x != nil {
					x.used = now()
				} else if o.Op == "create" {
					stored[o.K] = &life{val, now(), now()}
				}
			case "delete":
				m.Delete(o.K)
				delete(stored, o.K)
			}
			fw.Settle()
			look(fmt.Sprintf("after op %d %+v", n, o))
		}
		fw.Sleep(time.Duration(max(c.W, c.R)+1) * time.Millisecond)
		look("after the last operation and the longer timeout")
		if n := m.Size(); n != 0 {
			e.Fail("%d entries are left when both timeouts are over", n)
		}
	})
}

func init() {
	fw.Add("C33", "both", "an entry expired", genBoth, runBoth, []fw.Run{fw.Plain(1500), fw.Sched(300)})
	fw.Add("C53", "context", "the context ended while entries with a timeout were held", genContext, runGuava("context"), []fw.Run{fw.Plain(2500), fw.Sched(500), fw.Race(200)})
	fw.Add("C32", "histories", "an entry was evicted, or left an unbounded map", genContents, runGuava("contents"), []fw.Run{fw.Plain(4000)})
	fw.Add("C33", "lifetimes", "an entry expired", genExpiry, runGuava("expiry"), []fw.Run{fw.Plain(2500), fw.Sched(800)})
	fw.Add("C36", "within", "an update function stored, removed or replaced the entry it updates", genWithin, runGuava("within"), []fw.Run{fw.Plain(3000), fw.Sched(300)})
	fw.Add("C34", "histories", "an entry left the map", genUnload, runGuava("unload"), []fw.Run{fw.Plain(2500), fw.Sched(800)})
	fw.Add("C35", "histories", "a key was loaded again, or a zero value was loaded", genLoadSeq, runGuava("load"), []fw.Run{fw.Plain(2000)})
}
