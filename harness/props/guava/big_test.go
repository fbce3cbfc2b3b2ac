package guava

import (
	"math/rand/v2"

	"axverif/fw"

	"pgregory.net/rapid"
)

// Long histories over many keys, drawn from a seed: what only shows in maps
// that are much larger than those of the other parts.

type bigCase struct {
	Seed   uint64 `json:"seed"`
	Ops    int    `json:"ops"`
	Keys   int    `json:"keys"`
	Max    int    `json:"max,omitempty"`
	Kind   string `json:"kind,omitempty"`
	T      int    `json:"t,omitempty"`
	Load   string `json:"load,omitempty"`
	Unload bool   `json:"unload,omitempty"`
	Drop   int    `json:"drop"` // percentage of removals
}

func (b bigCase) expand() gCase {
	c := gCase{Max: b.Max, Kind: b.Kind, T: b.T, Unload: b.Unload, Load: b.Load, Lock: b.Seed%2 == 0}
	r := rand.New(rand.NewPCG(b.Seed, 11))
	cleared := false
	for n := range b.Ops {
		o := gOp{K: r.IntN(b.Keys)}
		switch p := r.IntN(100); {
		case p < b.Drop:
			o.Op = "delete"
		case p < b.Drop+25:
			o.Op = []string{"get", "get", "has"}[r.IntN(3)]
		case p < b.Drop+45:
			o.Op = "create"
		case p < b.Drop+50:
			o.Op = "update"
		default:
			o.Op = "set"
		}
		if !cleared && n > b.Ops*3/4 && r.IntN(b.Ops) < 4 {
			o.Op, cleared = "clear", true
		}
		if b.T > 0 && r.IntN(8) == 0 {
			o.D = 1 + r.IntN(max(1, b.T/32))
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func genBig(timeouts, unload bool) func(t *rapid.T) bigCase {
	return func(t *rapid.T) bigCase {
		b := bigCase{
			Seed: rapid.Uint64().Draw(t, "seed"), Ops: rapid.IntRange(300, 1500).Draw(t, "ops"),
			Keys: rapid.SampledFrom([]int{100, 300, 1000}).Draw(t, "keys"),
			Max:  rapid.SampledFrom([]int{0, 33, 65, 100, 129, 250, 257}).Draw(t, "max"),
			Load: rapid.SampledFrom([]string{"", "ok", "flaky"}).Draw(t, "load"),
			Drop: rapid.SampledFrom([]int{5, 15, 30}).Draw(t, "drop"),
		}
		if fw.Pct(t, "huge", 6) {
			b.Ops, b.Keys = rapid.IntRange(3000, 6000).Draw(t, "many"), 4000
			b.Max = rapid.SampledFrom([]int{0, 0, 600, 1025}).Draw(t, "top")
			b.Drop = 5
		}
		b.Unload = unload || rapid.Bool().Draw(t, "unload")
		if timeouts || unload && rapid.Bool().Draw(t, "timeout") {
			b.Kind, b.T = rapid.SampledFrom([]string{"read", "write"}).Draw(t, "kind"), rapid.SampledFrom([]int{300, 1000, 5000}).Draw(t, "t")
		}
		return b
	}
}

func runBig(focus string) func(*fw.Env, bigCase) {
	return func(e *fw.Env, b bigCase) {
		runGuava(focus)(e, b.expand())
	}
}

func init() {
	const rule = "more than 32 entries at once and entries that left"
	fw.Add("C32", "long", rule, genBig(false, false), runBig("big"), []fw.Run{fw.Plain(40)})
	fw.Add("C33", "long", rule, genBig(true, false), runBig("big"), []fw.Run{fw.Plain(40)})
	fw.Add("C34", "long", rule, genBig(false, true), runBig("big"), []fw.Run{fw.Plain(40)})
}
