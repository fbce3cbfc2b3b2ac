package chans

import (
	"context"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"axverif/fw"

	"pgregory.net/rapid"
)

// Late: in real time, with chunk timeouts of a millisecond or two and
// goroutines that sleep between any two statements of the code (instrumented
// builds), so that timers fire and contexts end while an item is in hand. On
// the virtual clock no time passes while anybody can run.

type lateCase struct {
	chanCase
	Nap    int `json:"nap"` // density, of 65536
	NapUS  int `json:"nap_us"`
	Cancel int `json:"cancel_us,omitempty"` // the context ends then
}

func genLate(kind string, cancels bool) func(*rapid.T) lateCase {
	return func(t *rapid.T) lateCase {
		c := lateCase{
			chanCase: chanCase{
				Size:    rapid.SampledFrom([]int{1, 2, 3, 5, 10}).Draw(t, "size"),
				Timeout: rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "timeout"),
				InBuf:   rapid.SampledFrom([]int{0, 1, 4, 100}).Draw(t, "inbuf"),
				OutBuf:  rapid.SampledFrom([]int{0, 1, 4, 100}).Draw(t, "outbuf"),
				How:     rapid.SampledFrom([]string{"add", "incoming", "user"}).Draw(t, "how"),
				Func:    rapid.Bool().Draw(t, "func"),
			},
			Nap:   rapid.SampledFrom([]int{0, 300, 1500, 4000}).Draw(t, "nap"),
			NapUS: rapid.SampledFrom([]int{100, 700, 2500}).Draw(t, "napus"),
		}
		if kind != "chunk" {
			c.Shards = rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "shards")
		}
		if kind == "shardchunk" {
			c.How = "user"
		}
		np := rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "prods")
		gaps := []int{0, 0, 0, 0, 2, 7, 12, 25}
		for range np {
			c.Prods = append(c.Prods, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) prodItem {
				p := prodItem{Gap: rapid.SampledFrom(gaps).Draw(t, "gap")}
				if kind != "chunk" {
					p.Key = rapid.IntRange(-3, 8).Draw(t, "key")
				}
				return p
			}), 1, 25).Draw(t, "items"))
		}
		if cancels {
			c.Cancel = rapid.SampledFrom([]int{1, 100, 700, 2000, 6000}).Draw(t, "cancel")
			c.NoCons = rapid.Bool().Draw(t, "nocons")
			return c
		}
		if fw.Pct(t, "slow", 40) {
			c.Slow = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 3}), 1, 4).Draw(t, "delays")
		}
		c.Close = c.How == "user" && rapid.Bool().Draw(t, "close")
		return c
	}
}

// within waits for a condition, in real time.
func within(d time.Duration, ok func() bool) bool {
	for end := time.Now().Add(d); !ok(); time.Sleep(300 * time.Microsecond) {
		if time.Now().After(end) {
			return ok()
		}
	}
	return true
}

func runLate(kind string) func(*fw.Env, lateCase) {
	return func(e *fw.Env, c lateCase) {
		base := runtime.NumGoroutine()
		fw.Naps(c.Nap, time.Duration(c.NapUS)*time.Microsecond)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		stop := make(chan struct{})
		rec := &recorder{start: time.Now()}
		var nwork atomic.Int64
		work := func(int) {
			if len(c.Slow) > 0 {
				time.Sleep(ms(c.Slow[int(nwork.Add(1))%len(c.Slow)]))
			}
		}
		tg := build(e, c.chanCase, kind, ctx, rec, work)
		var cw, pw sync.WaitGroup
		consume(c.chanCase, tg, rec, work, stop, &cw)
		total := 0
		for p := range c.Prods {
			total += len(c.Prods[p])
			pw.Add(1)
			go func() {
				defer pw.Done()
				for s, it := range c.Prods[p] {
					time.Sleep(time.Duration(it.Gap) * 100 * time.Microsecond)
					x := item{p, s + 1, it.Key}
					if c.How == "add" && tg.add != nil {
						if err := tg.add(x); err != nil && c.Cancel == 0 {
							e.Report("Add fails although the context lives: %v", err)
						}
						continue
					}
					select {
					case tg.in <- x:
					case <-ctx.Done():
					}
				}
			}()
		}
		mc := maxChunk(c.chanCase, kind)
		if c.Cancel > 0 {
			time.Sleep(time.Duration(c.Cancel) * time.Microsecond)
			e.NonTrivial(rec.count() < total)
			cancel()
		} else {
			e.NonTrivial(total > 1)
			if !within(20*time.Second, func() bool { return rec.count() >= total }) {
				rec.check(e, c.chanCase, c.Prods, mc, true)
			}
			pw.Wait()
			if c.Close {
				close(tg.in)
			}
			time.Sleep(ms(3*c.Timeout) + time.Duration(c.NapUS)*time.Microsecond)
			rec.check(e, c.chanCase, c.Prods, mc, true)
			if n := tg.sizes(); n != 0 && !c.Close {
				e.Fail("everything was delivered, yet the queues report %d entries", n)
			}
			cancel()
		}
		pw.Wait() // no producer stays
		close(stop)
		cw.Wait()
		if !within(20*time.Second, func() bool { return runtime.NumGoroutine() <= base }) {
			e.Fail("%d goroutines stay after the context was cancelled", runtime.NumGoroutine()-base)
		}
		rec.check(e, c.chanCase, c.Prods, mc, c.Cancel == 0)
	}
}

func init() {
	runs := []fw.Run{fw.Plain(100), fw.Sched(700), fw.Race(100)}
	fw.Add("C01", "late", "more than one item is sent", genLate("chunk", false), runLate("chunk"), runs, fw.RealTime(), fw.Reps(10))
	fw.Add("C03", "late", "more than one item is sent", genLate("shard", false), runLate("shard"), runs, fw.RealTime(), fw.Reps(10))
	fw.Add("C04", "late", "more than one item is sent", genLate("shardchunk", false), runLate("shardchunk"), runs, fw.RealTime(), fw.Reps(10))
	for _, k := range []string{"chunk", "shard", "shardchunk"} {
		fw.Add("C05", "late-"+k, "not everything was delivered when the context ended", genLate(k, true), runLate(k), runs, fw.RealTime(), fw.Reps(10))
	}
}
