package builders

import (
	"errors"
	"slices"
	"sync"

	"axverif/fw"

	"github.com/axgrid/axutils/flow"
	"pgregory.net/rapid"
)

// C56, processors: routes are added to a builder that has built already. What
// was built keeps the routes it was built with; the next product has them all.

type procOp struct {
	Op string `json:"op"` // route | build | call
	N  int    `json:"n"`  // steps of the route, or which product is called
	V  int    `json:"v"`  // the event
}
type procCase struct {
	Ops []procOp `json:"ops"`
	Par bool     `json:"par,omitempty"` // the calls run in goroutines while the builder goes on
}

func genProc(t *rapid.T) procCase {
	return procCase{
		Ops: fw.Ops(t, "ops", 2, 25, rapid.Custom(func(t *rapid.T) procOp {
			return procOp{Op: rapid.SampledFrom([]string{"route", "route", "build", "call", "call", "call"}).Draw(t, "op"), N: rapid.IntRange(0, 4).Draw(t, "n"), V: rapid.IntRange(0, 6).Draw(t, "v")}
		})),
		Par: fw.Pct(t, "par", 40),
	}
}

type procState struct{ trace []int }

var errProc = errors.New("step fails")

func runProc(e *fw.Env, c procCase) {
	b := flow.NewProcessor[int, *procState]()
	var steps []int // ids of the steps configured, those of one route after the other
	type product struct {
		call  func(int, *procState) error
		steps []int
	}
	var built []product
	id, late := 0, false
	var wg sync.WaitGroup
	defer wg.Wait()
	for n, o := range c.Ops {
		switch o.Op {
		case "route":
			late = late || len(built) > 0
			b = b.Route(func(r *flow.ProcessorRouterBuilder[int, *procState]) {
				for range o.N {
					id++
					id := id
					steps = append(steps, id)
					r = r.Do(func(ev int, st *procState) error {
						st.trace = append(st.trace, id)
						if ev > 0 && id%7 == ev {
							return errProc
						}
						return nil
					})
				}
			})
		case "build":
			built = append(built, product{b.Build(), slices.Clone(steps)})
		case "call":
			if len(built) == 0 {
				continue
			}
			p := built[o.N%len(built)]
			check := func() {
				st := &procState{}
				err := p.call(o.V, st)
				var want []int
				var wantErr error
				for _, s := range p.steps {
					want = append(want, s)
					if o.V > 0 && s%7 == o.V {
						wantErr = errProc
						break
					}
				}
				if err != wantErr || !slices.Equal(st.trace, want) {
					e.Report("op %d: product %d, built with the steps %v, ran %v and returned %v for event %d; want %v and %v", n, o.N%len(built), p.steps, st.trace, err, o.V, want, wantErr)
				}
			}
			if c.Par {
				wg.Add(1)
				go func() { defer wg.Done(); check() }()
			} else {
				check()
			}
		}
	}
	e.NonTrivial(late)
}

func init() {
	fw.Add("C56", "processors", "a route was added after a product was built", genProc, runProc, []fw.Run{fw.Plain(4000), fw.Race(400)})
}
