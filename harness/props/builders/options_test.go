package builders

import (
	"context"
	"math/rand/v2"
	"sort"
	"time"

	"axverif/fw"

	"pgregory.net/rapid"
)

// C60: what a builder is told. An object whose options are given in any order,
// some of them several times, and left out where the default is wanted, behaves
// as the one given every option once: the same history is played with both.

// opt is one option of a builder.
type opt struct {
	set   func() // gives it the value of the case
	decoy func() // another value
	def   func() // the default value, given as any other
	note  func() // what the test must know when it has the default
}

// over is a context that has ended.
var over = func() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}()

type plan struct {
	seed uint64
	def  int // options with the default value, as bits
	vary bool
}

func (l *lab) configure(opts []opt) {
	if l.plan == nil {
		for _, o := range opts {
			o.set()
		}
		return
	}
	p := l.plan
	r := rand.New(rand.NewPCG(p.seed, 60))
	type step struct {
		at  float64
		do  func()
		set bool
	}
	var steps []step
	for i, o := range opts {
		want := o.set
		def := p.def>>i&1 == 1 && o.def != nil
		if def {
			want = o.def
			if o.note != nil {
				o.note()
			}
		}
		at, before := r.Float64(), r.Float64()
		decoys := max(r.IntN(6)-3, 0)
		if !p.vary {
			want()
			continue
		}
		if def && decoys == 0 && r.IntN(4) > 0 {
			continue // left out
		}
		for range decoys {
			steps = append(steps, step{at * before, o.decoy, false})
		}
		steps = append(steps, step{at, want, true})
		if r.IntN(8) == 0 {
			steps = append(steps, step{at, want, true})
		}
	}
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].at < steps[j].at })
	for _, s := range steps {
		s.do()
	}
}

type optCase struct {
	Kind string `json:"kind"`
	Cfg  cfg    `json:"cfg"`
	Def  int    `json:"def"`
	Step int    `json:"step"` // ticks
	Seed uint64 `json:"seed"`
	Ops  []bOp  `json:"ops"`
}

func genOpt(t *rapid.T) optCase {
	kinds := []string{"chunk", "chunk", "shard", "shardchunk", "shardchunk", "guava", "hashset", "shardmap", "response", "wait", "holder", "uniq", "runner"}
	c := optCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Step: 1, Seed: rapid.Uint64().Draw(t, "seed")}
	c.Cfg = cfg{N: rapid.IntRange(1, 9).Draw(t, "n"), T: rapid.SampledFrom([]int{2, 3, 5, 9}).Draw(t, "t"), U: rapid.SampledFrom([]int{2, 4, 7}).Draw(t, "u"),
		Buf: rapid.SampledFrom([]int{0, 1, 5, 50}).Draw(t, "buf"), Fn: rapid.Bool().Draw(t, "fn"), User: rapid.Bool().Draw(t, "user")}
	if c.Cfg.N == 7 || c.Cfg.N == 9 { // what the decoys are
		c.Cfg.N = 6
	}
	c.Def = rapid.IntRange(0, 511).Draw(t, "def")
	// long waits where they show the defaults, and nothing ticks much faster
	steps := []int{1}
	switch c.Kind {
	case "wait", "holder":
		steps = []int{1, 100, 300, 3000, 10_000}
	case "response":
		if c.Def&2 != 0 {
			steps = []int{1, 1000, 3000, 5000}
		}
	case "uniq":
		if c.Def&4 != 0 {
			steps = []int{1, 30, 100, 20_000}
		}
	}
	c.Step = rapid.SampledFrom(steps).Draw(t, "step")
	c.Ops = fw.Ops(t, "ops", 1, 30, rapid.Custom(func(t *rapid.T) bOp {
		return bOp{Op: rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9}).Draw(t, "op"), K: rapid.IntRange(0, 5).Draw(t, "k"), D: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(t, "d")}
	}))
	return c
}

func playOpt(e *fw.Env, c optCase, vary bool) []string {
	l := &lab{e: e, c: bCase{Kind: c.Kind}, dif: 1, plan: &plan{c.Seed, c.Def, vary}}
	e.Bubble(func() {
		l.start = time.Now()
		for i := range l.ctx {
			l.ctx[i], l.end[i] = context.WithCancel(context.Background())
		}
		defer l.wg.Wait()
		defer l.end[0]()
		defer l.end[1]()
		obj := l.maker()(0, c.Cfg, false)
		fw.Settle()
		fw.Sleep(time.Millisecond)
		for n, o := range c.Ops {
			fw.Sleep(ticks(o.D*c.Step) + 100*time.Microsecond)
			if l.ctx[0].Err() != nil {
				break
			}
			if o.Op == 9 && n < len(c.Ops)*3/4 {
				o.Op = 8 // its end, mostly, comes at the end
			}
			obj(o, n)
			fw.Settle()
		}
		fw.Sleep(ticks(40))
		fw.Sleep(ticks(10 * c.Step))
	})
	sort.SliceStable(l.log, func(i, j int) bool { return l.log[i] < l.log[j] })
	return l.log
}

func runOpt(e *fw.Env, c optCase) {
	e.LeakIsViolation = true
	want := playOpt(e, c, false)
	if e.Failed() {
		return
	}
	got := playOpt(e, c, true)
	if e.Failed() {
		return
	}
	e.Label(c.Kind)
	e.NonTrivial(len(want) > 0)
	for i := range max(len(got), len(want)) {
		g, w := "nothing more", "nothing more"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			e.Fail("a %s object whose options were given in another order, several times or not at all where the default was wanted: observation %d is %q, want %q", c.Kind, i, g, w)
		}
	}
}

func init() {
	fw.Add("C60", "options", "the object was seen to do something", genOpt, runOpt, []fw.Run{fw.Plain(16000), fw.Race(1000)})
}
