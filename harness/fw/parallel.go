package fw

import (
	"sync"

	"pgregory.net/rapid"
)

// ParCase is a few cases of a part that run at the same time.
type ParCase[C any] struct {
	Cs []C `json:"cs"`
}

// Parallel makes generator and runner of a part that runs several cases of
// another part at once, each in a goroutine of its own, twice. The other part
// must keep nothing outside its case, and run on no virtual clock.
func Parallel[C any](gen func(*rapid.T) C, run func(*Env, C)) (func(*rapid.T) ParCase[C], func(*Env, ParCase[C])) {
	return func(t *rapid.T) ParCase[C] {
			return ParCase[C]{rapid.SliceOfN(rapid.Custom(gen), 2, 4).Draw(t, "cases")}
		}, func(e *Env, c ParCase[C]) {
			var wg sync.WaitGroup
			start := make(chan bool)
			for _, x := range c.Cs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for range 2 {
						e.Main(func() { run(e, x) })
					}
				}()
			}
			close(start)
			wg.Wait()
		}
}

// AddParallel registers the part "parallel" of a property, made with Parallel.
func AddParallel[C any](id, rule string, gen func(*rapid.T) C, run func(*Env, C), quick []Run) {
	g, r := Parallel(gen, run)
	Add(id, "parallel", rule+", several at once", g, r, quick, Reps(5))
}
