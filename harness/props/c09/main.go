// C09: the sequencer re-emits a scrambled stream in order, completely, exactly once, without
// deadlock, and its valve bounds how much is held back.  Race detector build.
package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/KitchenMishap/pudding-shed/concurrency"
	"verifharness/kit"
)

type item struct {
	seq  int64
	body [4]int64
}

func (i *item) SequenceNumber() int64 { return i.seq }

func jitter(r int) {
	switch r % 7 {
	case 0:
		time.Sleep(time.Duration(r%300) * time.Microsecond)
	case 1, 2:
		runtime.Gosched()
	}
}

// pool: in-order dispatch through the valve, W workers with random delays, one sequencer, one consumer.
func poolCase(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("pool/%d", k), Run: func(t *kit.T) {
		r := t.R
		first := int64(r.Intn(3)) * int64(r.Intn(1000))
		n := int64(1 + r.Intn(400))
		if r.Intn(10) == 0 {
			n = 0
		}
		w := 1 + r.Intn(16)
		bloat := 1 + r.Intn(40)
		outBuf := r.Intn(3) * r.Intn(20)
		stall := int64(-1)
		if n > 0 && r.Intn(2) == 0 {
			stall = first + r.Int63n(n)
		}
		slow := r.Intn(3) == 0
		delays := make([]int, n)
		for i := range delays {
			delays[i] = r.Intn(1000)
		}
		out := make(chan *item, outBuf)
		sc := concurrency.NewSequencerContainer[*item](first, bloat, out)
		work := make(chan *item)
		var dispatched, emitted, over int64
		bound := int64(bloat + w + outBuf + 5)
		go func() {
			for i := int64(0); i < n; i++ {
				sc.WaitForNotBloated()
				d := atomic.AddInt64(&dispatched, 1)
				if e := atomic.LoadInt64(&emitted); d-e > bound {
					atomic.AddInt64(&over, 1)
				}
				work <- &item{seq: first + i, body: [4]int64{i, i * i, ^i, 7}}
			}
			close(work)
		}()
		var wg sync.WaitGroup
		for j := 0; j < w; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for it := range work {
					jitter(delays[it.seq-first])
					if it.seq == stall {
						time.Sleep(15 * time.Millisecond) // long enough for everything else to pile up
					}
					sc.InChan <- it
				}
			}()
		}
		go func() { wg.Wait(); close(sc.InChan) }()
		want := first
		order := uint64(0)
		maxHeld := int64(0)
		for it := range out {
			atomic.AddInt64(&emitted, 1)
			t.Evals(1)
			if it.seq != want {
				t.Fatalf("order", "n=%d workers=%d bloat=%d: number %d came out where %d was due", n, w, bloat, it.seq, want)
			}
			i := it.seq - first
			if it.body != [4]int64{i, i * i, ^i, 7} {
				t.Fatalf("payload", "item %d came out with another payload", it.seq)
			}
			want++
			if h := atomic.LoadInt64(&dispatched) - atomic.LoadInt64(&emitted); h > maxHeld {
				maxHeld = h
			}
			if slow && it.seq%17 == 0 {
				time.Sleep(200 * time.Microsecond)
			}
		}
		if want != first+n {
			t.Fatalf("lost", "n=%d workers=%d bloat=%d: stream closed after %d items", n, w, bloat, want-first)
		}
		if over > 0 {
			t.Fatalf("valve", "n=%d workers=%d bloat=%d stall=%d: %d times more than %d items were let past the valve and not emitted", n, w, bloat, stall, over, bound)
		}
		t.CountMax("held", maxHeld)
		t.Count("items", n)
		t.Distinct(n, w, bloat, stall, outBuf, order)
		t.Sample("%d items from %d through %d workers, valve at %d, item %d stalled, at most %d outstanding", n, first, w, bloat, stall, maxHeld)
	}}
}

// direct: an exact arrival order chosen by the case is fed in; the emission is judged after every arrival.
func directCase(k int, perm []int64, bloat int, label string) kit.Case {
	return kit.Case{Name: fmt.Sprintf("arrival/%s/%d", label, k), Run: func(t *kit.T) {
		if perm == nil {
			n := 2 + t.R.Intn(60)
			perm = make([]int64, n)
			for i := range perm {
				perm[i] = int64(i)
			}
			switch t.R.Intn(4) {
			case 0:
				t.R.Shuffle(n, func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
			case 1: // reversed blocks
				b := 1 + t.R.Intn(n)
				for s := 0; s < n; s += b {
					for i, j := s, min(s+b, n)-1; i < j; i, j = i+1, j-1 {
						perm[i], perm[j] = perm[j], perm[i]
					}
				}
			case 2: // one late item
				x := t.R.Intn(n)
				v := perm[x]
				copy(perm[x:], perm[x+1:])
				perm[n-1] = v
			case 3: // window shuffle
				for i := 0; i+5 < n; i += 1 + t.R.Intn(5) {
					j := i + t.R.Intn(5)
					perm[i], perm[j] = perm[j], perm[i]
				}
			}
			bloat = 1 + t.R.Intn(12)
		}
		first := int64(t.R.Intn(2) * 1000)
		out := make(chan *item, len(perm)+1)
		sc := concurrency.NewSequencerContainer[*item](first, bloat, out)
		seen := map[int64]bool{}
		next := int64(0)
		got := int64(0)
		for ai, p := range perm {
			sc.InChan <- &item{seq: first + p}
			seen[p] = true
			for seen[next] {
				next++
			}
			// Everything due by now must come out without further input
			for got < next {
				it, ok := <-out // a lost item shows as a deadlock or hang
				t.Evals(1)
				if !ok {
					t.Fatalf("closed-early", "arrival order %v: output closed after %d", perm, got)
				}
				if it.seq != first+got {
					t.Fatalf("order", "arrival order %v: %d came out where %d was due", perm, it.seq-first, got)
				}
				got++
			}
			// The sequencer may only be holding what is not due: with fewer held than the limit the valve is open.
			held := ai + 1 - int(next)
			if held == 0 {
				sc.WaitForNotBloated() // must not block
			}
		}
		close(sc.InChan)
		if it, ok := <-out; ok {
			t.Fatalf("extra", "arrival order %v: %d came out again after everything had", perm, it.seq-first)
		}
		sc.WaitForNotBloated()
		if got != int64(len(perm)) {
			t.Fatalf("lost", "arrival order %v: only %d came out", perm, got)
		}
		t.Distinct(perm, bloat)
		t.Count("items", int64(len(perm)))
		t.Sample("arrival order %v with valve at %d", perm, bloat)
	}}
}

// waiters: several producers wait at once for the sequencer not to be bloated; when what was missing arrives, all go on.
func waiters(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("waiters/%d", k), Run: func(t *kit.T) {
		bloat, n := 1+t.R.Intn(6), 2+t.R.Intn(6)
		out := make(chan *item)
		next := int64(t.R.Intn(1000))
		sc := concurrency.NewSequencerContainer[*item](next, bloat, out)
		for round := 0; round < 4; round++ {
			held := int64(bloat + t.R.Intn(4))
			for i := held; i > 0; i-- {
				sc.InChan <- &item{seq: next + i}
			}
			var ready, wg sync.WaitGroup
			for i := 0; i < n; i++ {
				ready.Add(1)
				wg.Add(1)
				go func() {
					ready.Done()
					sc.WaitForNotBloated()
					wg.Done()
				}()
			}
			ready.Wait()
			time.Sleep(time.Duration(t.R.Intn(3000)) * time.Microsecond)
			sc.InChan <- &item{seq: next}
			for i := int64(0); i <= held; i++ {
				if it := <-out; it.seq != next+i {
					t.Fatalf("order", "%d came out where %d was due", it.seq, next+i)
				}
			}
			wg.Wait() // the case hangs if one was not woken
			t.Evals(held + int64(n))
			next += held + 1
		}
		close(sc.InChan)
		if it, ok := <-out; ok {
			t.Fatalf("extra", "%d came out again after everything had", it.seq)
		}
		t.Count("producers_waiting_at_once", int64(4*n))
		t.Distinct("waiters", bloat, n, k)
	}}
}

func perms(n int) [][]int64 {
	var res [][]int64
	a := make([]int64, n)
	for i := range a {
		a[i] = int64(i)
	}
	var rec func(int)
	rec = func(i int) {
		if i == n {
			res = append(res, append([]int64{}, a...))
			return
		}
		for j := i; j < n; j++ {
			a[i], a[j] = a[j], a[i]
			rec(i + 1)
			a[i], a[j] = a[j], a[i]
		}
	}
	rec(0)
	return res
}

func main() {
	kit.Main(kit.Prop{
		ID:          "C09",
		Rule:        "Two workloads under the race detector: a full pool (valve, workers with injected delays and stalls, sequencer, consumer) and single feeds with a chosen arrival order (all permutations of 2..5 items at every valve setting, and random long ones), where the monitor demands each due item before it feeds the next. Several producers waiting at once for the valve must all go on when it opens. distinct_nontrivial counts distinct (arrival order or pool configuration).",
		Assumptions: []string{"a lost item or lost wake-up shows as a hang of the case, judged by a limit hundreds of times its normal duration"},
		MinEvals:    20000,
		CaseTimeout: 60e9,
		Workers:     4,
		Cases: func(tier string, seed int64) []kit.Case {
			pool, direct := 150, 300
			maxN := 5
			if tier == "thorough" {
				pool, direct, maxN = 3000, 6000, 7
			}
			var cs []kit.Case
			for n := 2; n <= maxN; n++ {
				for i, p := range perms(n) {
					for _, b := range []int{1, 2, 3} {
						if n > 5 && b != 2 {
							continue
						}
						cs = append(cs, directCase(i, p, b, fmt.Sprintf("all%d-bloat%d", n, b)))
					}
				}
			}
			for k := 0; k < direct; k++ {
				cs = append(cs, directCase(k, nil, 0, "random"))
			}
			for k := 0; k < pool/3; k++ {
				cs = append(cs, waiters(k))
			}
			for k := 0; k < pool; k++ {
				cs = append(cs, poolCase(k))
			}
			return cs
		},
	})
}
