// C24: goroutines waiting for memory are all released once it was freed; no data races.
package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/KitchenMishap/pudding-shed/memblocker"
	"verifharness/kit"
)

func heap() uint64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

type hog struct{ b []byte }

const mb = 1 << 20

// ballast is allocated garbage that keeps the heap above the limit.
var ballast []*hog

func one(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("waiters/%d", k), Run: func(t *kit.T) {
		r := t.R
		waiters := 1 + r.Intn(12)
		chunks := 1 + r.Intn(5)
		rounds := 1 + r.Intn(3)
		t.Sample("waiters=%d chunks=%d rounds=%d", waiters, chunks, rounds)
		base := heap()
		limit := base + 24*mb
		m := memblocker.NewMemBlocker(limit)
		for round := 0; round < rounds; round++ {
			ballast = nil
			if !m.IsThereFreeMemory() {
				runtime.GC()
			}
			// No memory pressure: waiting returns at once, with no one announcing anything
			if !m.IsThereFreeMemory() {
				t.Failf("no-free-memory", "heap %d is below the limit %d but no free memory is reported", heap(), limit)
			}
			m.WaitForSpareMemory()
			t.Evals(2)
			for i := 0; i < chunks; i++ {
				ballast = append(ballast, &hog{make([]byte, 40*mb)})
			}
			if m.IsThereFreeMemory() {
				t.Failf("pressure-unseen", "heap of over %d bytes against a limit of %d is reported as free", uint64(chunks)*40*mb, limit)
			}
			var started, released atomic.Int32
			var wg sync.WaitGroup
			var early atomic.Int32
			var pressed atomic.Bool
			pressed.Store(true)
			for i := 0; i < waiters; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					started.Add(1)
					m.WaitForSpareMemory()
					if pressed.Load() {
						early.Add(1)
					}
					_ = m.LastHeapSize()
					released.Add(1)
				}()
			}
			for started.Load() < int32(waiters) {
				runtime.Gosched()
			}
			for i := 0; i < 4; i++ {
				_ = m.IsThereFreeMemory()
				time.Sleep(time.Millisecond)
			}
			// Some come when freeing has begun already, and measure before it has ended
			late := 0
			if r.Intn(2) == 0 {
				late = 1 + r.Intn(3)
			}
			// Free in steps; all but the last leave the heap above the limit
			for len(ballast) > 0 {
				m.StartFreeingMem()
				if len(ballast) == 1 && late > 0 {
					var coming atomic.Int32
					for i := 0; i < late; i++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							coming.Add(1)
							m.WaitForSpareMemory()
							released.Add(1)
						}()
					}
					for coming.Load() < int32(late) {
						runtime.Gosched()
					}
					time.Sleep(30 * time.Millisecond)
					t.Count("waiters_during_freeing", int64(late))
				}
				ballast[len(ballast)-1] = nil
				ballast = ballast[:len(ballast)-1]
				if len(ballast) == 0 {
					pressed.Store(false)
				}
				runtime.GC()
				runtime.GC()
				m.MemoryWasFreed()
				if len(ballast) > 0 && early.Load() > 0 {
					t.Failf("released-early", "a waiter was released while %d bytes above the limit were in use", len(ballast)*40*mb)
				}
			}
			// Every waiter must come back: one that does not is seen by the driver as a hang/deadlock
			wg.Wait()
			t.Evals(int64(waiters))
			t.Count("waiters_released", int64(released.Load()))
			if l := m.LastHeapSize(); l == 0 || l >= limit+uint64(chunks)*40*mb+64*mb {
				t.Failf("last-heap-size", "last heap size %d is not plausible", l)
			}
			t.Distinct(waiters, chunks)
		}
		ballast = nil
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:          "C24",
		Rule:        "each case parks 1-12 goroutines on a MemBlocker while 40-200 MB of ballast hold the heap above the limit, then frees the ballast step by step with announcements; non-trivial: waiters were parked under pressure",
		Workers:     4,
		CaseTimeout: 60 * time.Second,
		MinEvals:    50,
		Assumptions: []string{"the heap of a worker process moves by less than 24 MB besides the ballast"},
		Cases: func(tier string, seed int64) []kit.Case {
			n := 60
			if tier == "thorough" {
				n = 500
			}
			var cs []kit.Case
			for i := 0; i < n; i++ {
				cs = append(cs, one(i))
			}
			return cs
		},
	})
}
