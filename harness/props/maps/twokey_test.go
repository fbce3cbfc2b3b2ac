package maps

import (
	"fmt"
	"slices"
	"strings"

	"axverif/fw"

	"github.com/axgrid/axutils/collections"
	"pgregory.net/rapid"
)

// ------------------------------------------------- C26, C27 TwoKeyMap

type tkOp struct {
	Op string `json:"op"`
	A  int    `json:"a"` // first key
	B  int    `json:"b"` // second key
	V  int    `json:"v,omitempty"`
}
type tkCase struct {
	K1  string   `json:"k1"`
	K2  string   `json:"k2"`
	Ops []tkOp   `json:"ops,omitempty"`
	Thr [][]tkOp `json:"thr,omitempty"`
}
type vok struct {
	V  int
	OK bool
}

func tkGen(top int) *rapid.Generator[tkOp] {
	return rapid.Custom(func(t *rapid.T) tkOp {
		o := tkOp{Op: rapid.SampledFrom([]string{"put", "put", "put", "get", "get2", "rm", "rm2", "len", "keys", "keys2"}).Draw(t, "op")}
		switch o.Op {
		case "put":
			o.A, o.B = rapid.IntRange(0, top).Draw(t, "a"), rapid.IntRange(0, top).Draw(t, "b")
			o.V = rapid.IntRange(0, 9).Draw(t, "v")
		case "get", "rm":
			o.A = rapid.IntRange(0, top).Draw(t, "a")
		case "get2", "rm2":
			o.B = rapid.IntRange(0, top).Draw(t, "b")
		}
		return o
	})
}

func genTK(t *rapid.T) tkCase {
	c := tkCase{K1: drawKeyKind(t), K2: drawKeyKind(t)}
	top := rapid.SampledFrom([]int{1, 2, 4, 20}).Draw(t, "top")
	c.Ops = fw.Ops(t, "ops", 1, 80, tkGen(top))
	return c
}

func genTKConc(t *rapid.T) tkCase {
	c := tkCase{K1: drawKeyKind(t), K2: drawKeyKind(t)}
	top := rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, "top")
	c.Thr = rapid.SliceOfN(rapid.SliceOfN(tkGen(top), 1, 6), 2, 4).Draw(t, "thr")
	return c
}

// The model's state is a list of entries of three bytes, sorted by first key:
// first key, second key or '-' when another entry took it over, value.
func tkStep(st string, o tkOp, out any) (bool, string) {
	a, b := byte('A'+o.A), byte('a'+o.B)
	var ents [][3]byte
	for i := 0; i < len(st); i += 3 {
		ents = append(ents, [3]byte{st[i], st[i+1], st[i+2]})
	}
	by1 := slices.IndexFunc(ents, func(x [3]byte) bool { return x[0] == a })
	by2 := slices.IndexFunc(ents, func(x [3]byte) bool { return x[1] == b })
	join := func() string {
		slices.SortFunc(ents, func(x, y [3]byte) int { return int(x[0]) - int(y[0]) })
		var s strings.Builder
		for _, x := range ents {
			s.Write(x[:])
		}
		return s.String()
	}
	found := func(i int) vok {
		if i < 0 {
			return vok{}
		}
		return vok{int(ents[i][2] - '0'), true}
	}
	rm := func(i int) string {
		if i >= 0 {
			ents = slices.Delete(ents, i, i+1)
		}
		return join()
	}
	list := func(col int) string {
		var s []byte
		for _, x := range ents {
			if x[col] != '-' {
				s = append(s, x[col])
			}
		}
		slices.Sort(s)
		return string(s)
	}
	switch o.Op {
	case "put":
		if by2 >= 0 {
			ents[by2][1] = '-'
		}
		if by1 >= 0 {
			ents[by1] = [3]byte{a, b, byte('0' + o.V)}
		} else {
			ents = append(ents, [3]byte{a, b, byte('0' + o.V)})
		}
		return true, join()
	case "get":
		return out == found(by1), st
	case "get2":
		return out == found(by2), st
	case "rm":
		return true, rm(by1)
	case "rm2":
		return true, rm(by2)
	case "len":
		return out == len(ents), st
	case "keys":
		return out == list(0), st
	case "keys2":
		return out == list(1), st
	}
	panic("op " + o.Op)
}

func tkExec[A, B comparable](m *collections.TwoKeyMap[A, B, int], ka codec[A], kb codec[B], o tkOp) any {
	switch o.Op {
	case "put":
		m.Put(ka.of(o.A), kb.of(o.B), o.V)
	case "get":
		v, ok := m.Get(ka.of(o.A))
		return vok{v, ok}
	case "get2":
		v, ok := m.GetByK2(kb.of(o.B))
		return vok{v, ok}
	case "rm":
		m.Remove(ka.of(o.A))
	case "rm2":
		m.RemoveByK2(kb.of(o.B))
	case "len":
		return m.Len()
	case "keys":
		return keyString('A', ka, m.Keys())
	case "keys2":
		return keyString('a', kb, m.KeysK2())
	}
	return nil
}

func keyString[K comparable](base byte, kc codec[K], ks []K) string {
	b := []byte{}
	for _, k := range ks {
		i, ok := kc.back[k]
		if !ok {
			return fmt.Sprintf("unknown key %v", k)
		}
		b = append(b, base+byte(i))
	}
	slices.Sort(b)
	return string(b)
}

func runTK(e *fw.Env, c tkCase) {
	switch c.K1 {
	case "int":
		runTK1(e, c, newCodec(intKey))
	case "string":
		runTK1(e, c, newCodec(strKey))
	case "float":
		runTK1(e, c, newCodec(floatKey))
	case "any":
		runTK1(e, c, newCodec(anyKey))
	default:
		runTK1(e, c, newCodec(stKey))
	}
}

func runTK1[A comparable](e *fw.Env, c tkCase, ka codec[A]) {
	switch c.K2 {
	case "int":
		runTK2(e, c, ka, newCodec(intKey))
	case "string":
		runTK2(e, c, ka, newCodec(strKey))
	case "float":
		runTK2(e, c, ka, newCodec(floatKey))
	case "any":
		runTK2(e, c, ka, newCodec(anyKey))
	default:
		runTK2(e, c, ka, newCodec(stKey))
	}
}

func tkQueries(top int) []tkOp {
	qs := []tkOp{{Op: "len"}, {Op: "keys"}, {Op: "keys2"}}
	for k := 0; k <= top; k++ {
		qs = append(qs, tkOp{Op: "get", A: k}, tkOp{Op: "get2", B: k})
	}
	return qs
}

func runTK2[A, B comparable](e *fw.Env, c tkCase, ka codec[A], kb codec[B]) {
	if c.Thr != nil {
		fw.Repeat(e, 3, func() {
			m := collections.NewTwoKeyMap[A, B, int]()
			ex := func(_ int, o tkOp) any { return tkExec(m, ka, kb, o) }
			hist := fw.Threads(c.Thr, ex)
			hist = append(hist, fw.Threads([][]tkOp{tkQueries(2)}, ex)...)
			fw.Linearizable(e, "", tkStep, nil, hist)
			e.NonTrivial(fw.Overlaps(hist) > 0)
		})
		return
	}
	m := collections.NewTwoKeyMap[A, B, int]()
	st, rebound, absent := "", false, false
	for n, o := range c.Ops {
		if o.Op == "put" {
			for i := 0; i < len(st); i += 3 {
				same1, same2 := st[i] == byte('A'+o.A), st[i+1] == byte('a'+o.B)
				rebound = rebound || same1 != same2
			}
		}
		before := st
		out := tkExec(m, ka, kb, o)
		ok, nst := tkStep(st, o, out)
		if !ok {
			e.Fail("op %d %+v returned %+v; entries (first key A.., second key a.. or -, value): %q", n, o, out, st)
		}
		st = nst
		absent = absent || (o.Op == "rm" || o.Op == "rm2") && st == before
		for _, q := range tkQueries(21) {
			out := tkExec(m, ka, kb, q)
			if ok, _ := tkStep(st, q, out); !ok {
				e.Fail("after op %d %+v, %+v returned %+v; entries (first key A.., second key a.. or -, value): %q, before: %q", n, o, q, out, st, before)
			}
		}
	}
	e.LabelIf(rebound, "a key was put again with another partner")
	e.LabelIf(absent, "an absent key was removed")
	e.NonTrivial(rebound)
}

func init() {
	fw.Add("C26", "histories", "a key was put again with another partner", genTK, runTK, []fw.Run{fw.Plain(4000)})
	fw.Add("C27", "linearizable", "operations of different goroutines overlapped", genTKConc, runTK,
		[]fw.Run{fw.Plain(1000), fw.Sched(1500), fw.Race(600)}, fw.Reps(20))
}
