// Package yield is the schedule fuzzer's hook. The "sched" and "race" builds of
// the checks compile a copy of /repo in which every statement is preceded by a
// call to Y (see cmd/axv/instrument.go); Y gives up the processor at
// pseudo-random points, chosen by a seed that is part of the generated case.
package yield

import (
	"runtime"
	"time"
)

var (
	state   uint64
	density uint32 // a yield happens with probability density/256; 0 = off
	stall   uint32 // and a long one with probability stall/4096
	nap     uint32 // and a sleep with probability nap/65536
	napFor  time.Duration
)

// Nap makes some yields sleep, until the next Set. Not for use on a virtual
// clock, where sleeping with a lock held would stop the clock.
func Nap(n uint32, d time.Duration) { nap, napFor = n, d }

// Set seeds the schedule. Called between cases, when no case goroutine runs.
func Set(seed uint64, dens, stalls uint32) {
	state = seed*0x9E3779B97F4A7C15 + 0x1234567
	density = dens
	stall = stalls
	nap = 0
}

// Y deliberately uses plain, unsynchronised state: an atomic here would create
// happens-before edges between every pair of goroutines and blind the race
// detector. The schedule is only meant to be reproducible with GOMAXPROCS=1.
//
//go:norace
func Y() {
	d := density
	if d|stall|nap == 0 {
		return
	}
	state += 0x9E3779B97F4A7C15
	z := state
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	z ^= z >> 31
	if uint32(z>>16&65535) < nap {
		time.Sleep(napFor)
		return
	}
	if uint32(z>>32&4095) < stall {
		// long enough for others to go through whole operations meanwhile
		for i := 16 + int(z>>48&255); i > 0; i-- {
			runtime.Gosched()
		}
		return
	}
	if uint32(z&255) < d {
		n := 1 + int((z>>8)&3)
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	}
}
