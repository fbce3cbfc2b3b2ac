package fw

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"
	_ "unsafe"

	"github.com/anishathalye/porcupine"
)

// nanotime is the real monotonic clock, inside a bubble too.
//
//go:linkname nanotime runtime.nanotime
func nanotime() int64

// Threads runs the scripts on one goroutine each, started together, and
// returns the history. Operations are stamped with the monotonic clock and
// nothing else: a shared counter would order the goroutines for the race
// detector. Operations with equal stamps count as concurrent.
func Threads[I any](scripts [][]I, exec func(thread int, in I) any) []porcupine.Operation {
	var wg sync.WaitGroup
	start := make(chan struct{})
	hist := make([][]porcupine.Operation, len(scripts))
	for t, ops := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, in := range ops {
				call := nanotime()
				out := exec(t, in)
				ret := nanotime()
				hist[t] = append(hist[t], porcupine.Operation{ClientId: t, Input: in, Call: call, Output: out, Return: ret})
			}
		}()
	}
	close(start)
	wg.Wait()
	var all []porcupine.Operation
	for _, h := range hist {
		all = append(all, h...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Call < all[j].Call })
	return all
}

// Overlaps counts pairs of operations of different threads that overlapped.
func Overlaps(hist []porcupine.Operation) int {
	n := 0
	for i, a := range hist {
		for _, b := range hist[i+1:] {
			if b.Call > a.Return {
				break
			}
			if a.ClientId != b.ClientId {
				n++
			}
		}
	}
	return n
}

// Linearizable reports a history that no order of its operations explains.
// step is the sequential model: it returns whether the output is right in the
// state, and the next state. States are strings.
func Linearizable[I any](e *Env, init string, step func(state string, in I, out any) (bool, string), part func(I) string, hist []porcupine.Operation) {
	m := porcupine.Model{
		Init:  func() any { return init },
		Step:  func(s, in, out any) (bool, any) { ok, n := step(s.(string), in.(I), out); return ok, n },
		Equal: func(a, b any) bool { return a == b },
	}
	if part != nil {
		m.Partition = func(h []porcupine.Operation) [][]porcupine.Operation {
			by := map[string][]porcupine.Operation{}
			var keys []string
			for _, op := range h {
				k := part(op.Input.(I))
				if by[k] == nil {
					keys = append(keys, k)
				}
				by[k] = append(by[k], op)
			}
			sort.Strings(keys)
			var out [][]porcupine.Operation
			for _, k := range keys {
				out = append(out, by[k])
			}
			return out
		}
	}
	switch porcupine.CheckOperationsTimeout(m, hist, 5*time.Second) {
	case porcupine.Illegal:
		e.Fail("no order of the operations explains this history:\n%s", HistString(hist))
	case porcupine.Unknown:
		e.Label("linearizability undecided in 5 s")
	}
}

// HistString prints a history.
func HistString(hist []porcupine.Operation) string {
	var b strings.Builder
	for _, op := range hist {
		fmt.Fprintf(&b, "  [%d..%d] thread %d: %+v -> %+v\n", op.Call-hist[0].Call, op.Return-hist[0].Call, op.ClientId, op.Input, op.Output)
	}
	return b.String()
}

// Repeat runs fn n times, or until it reports a violation.
func Repeat(e *Env, n int, fn func()) {
	for i := 0; i < n && !e.Failed(); i++ {
		fn()
	}
}
