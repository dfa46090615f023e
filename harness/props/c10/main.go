// C10: the worker pool processes every submitted task exactly once and reports its own error.
package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/KitchenMishap/pudding-shed/concurrency"
	"verifharness/kit"
)

type task struct {
	id        int
	fail      bool
	delay     time.Duration
	processed int32
	setCalls  int32
	doneCalls int32
	state     int32 // 0 new, 1 processing, 2 error set, 3 done
	err       error
	active    *int32
	maxActive *int32
	wg        *sync.WaitGroup
	bad       *atomic.Value
	plain     int // written by Process without a lock: a second concurrent Process is a data race
}

type taskErr struct{ id int }

func (e *taskErr) Error() string { return fmt.Sprint("task ", e.id) }

func (k *task) Process() error {
	a := atomic.AddInt32(k.active, 1)
	for {
		m := atomic.LoadInt32(k.maxActive)
		if a <= m || atomic.CompareAndSwapInt32(k.maxActive, m, a) {
			break
		}
	}
	atomic.AddInt32(&k.processed, 1)
	if !atomic.CompareAndSwapInt32(&k.state, 0, 1) {
		k.bad.Store(fmt.Sprintf("task %d processed in state %d", k.id, atomic.LoadInt32(&k.state)))
	}
	k.plain++
	if k.delay > 0 {
		time.Sleep(k.delay)
	} else {
		runtime.Gosched()
	}
	atomic.AddInt32(k.active, -1)
	if k.fail {
		return &taskErr{k.id}
	}
	return nil
}
func (k *task) SetError(e error) {
	atomic.AddInt32(&k.setCalls, 1)
	if !atomic.CompareAndSwapInt32(&k.state, 1, 2) {
		k.bad.Store(fmt.Sprintf("task %d given its error in state %d", k.id, atomic.LoadInt32(&k.state)))
	}
	k.err = e
}
func (k *task) Done() {
	atomic.AddInt32(&k.doneCalls, 1)
	if !atomic.CompareAndSwapInt32(&k.state, 2, 3) {
		k.bad.Store(fmt.Sprintf("task %d done in state %d", k.id, atomic.LoadInt32(&k.state)))
	}
	k.wg.Done()
}
func (k *task) GetError() error { return k.err }

func one(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("pool/%d", k), Run: func(t *kit.T) {
		r := t.R
		w := 1 + r.Intn(12)
		n := 1 + r.Intn(300)
		submitters := 1 + r.Intn(6)
		pool := concurrency.NewWorkerPool(w)
		var active, maxActive int32
		var wg sync.WaitGroup
		var bad atomic.Value
		tasks := make([]*task, n)
		for i := range tasks {
			tasks[i] = &task{id: i, fail: r.Intn(3) == 0, active: &active, maxActive: &maxActive, wg: &wg, bad: &bad}
			if r.Intn(10) == 0 {
				tasks[i].delay = time.Duration(r.Intn(300)) * time.Microsecond
			}
		}
		wg.Add(n)
		for s := 0; s < submitters; s++ {
			go func(s int) {
				for i := s; i < n; i += submitters {
					pool.InChan <- tasks[i]
				}
			}(s)
		}
		wg.Wait() // an unprocessed task shows as a hang
		if b := bad.Load(); b != nil {
			t.Fatalf("protocol", "%v", b)
		}
		for _, k := range tasks {
			t.Evals(1)
			if k.processed != 1 || k.setCalls != 1 || k.doneCalls != 1 || k.plain != 1 {
				t.Fatalf("exactly-once", "task %d: processed %d, error set %d, done %d times", k.id, k.processed, k.setCalls, k.doneCalls)
			}
			e, isErr := k.GetError().(*taskErr)
			if k.fail && (!isErr || e.id != k.id) || !k.fail && k.GetError() != nil {
				t.Fatalf("error", "task %d (fails: %v) reports error %v", k.id, k.fail, k.GetError())
			}
		}
		if int(maxActive) > w {
			t.Fatalf("concurrency", "%d tasks ran at once in a pool of %d", maxActive, w)
		}
		close(pool.InChan)
		t.CountMax("concurrent_tasks", int64(maxActive))
		t.Distinct(w, n, submitters, maxActive)
		t.Sample("%d tasks by %d submitters through %d workers, %d at once", n, submitters, w, maxActive)
	}}
}

// full: the pool really runs as many tasks at once as asked: tasks that wait for each other complete.
func full(w int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("rendezvous/%d", w), Run: func(t *kit.T) {
		pool := concurrency.NewWorkerPool(w)
		var wg, meet sync.WaitGroup
		wg.Add(w)
		meet.Add(w)
		for i := 0; i < w; i++ {
			pool.InChan <- &rendezvous{meet: &meet, wg: &wg}
		}
		wg.Wait()
		close(pool.InChan)
		t.Evals(int64(w))
		t.Distinct("rendezvous", w)
	}}
}

type rendezvous struct{ meet, wg *sync.WaitGroup }

func (k *rendezvous) Process() error  { k.meet.Done(); k.meet.Wait(); return nil }
func (k *rendezvous) SetError(error)  {}
func (k *rendezvous) Done()           { k.wg.Done() }
func (k *rendezvous) GetError() error { return nil }

func main() {
	kit.Main(kit.Prop{
		ID:          "C10",
		Rule:        "Seeded random pools (workers, submitters, tasks with injected delays and failures) under the race detector; each task carries a state machine that the pool's calls drive. distinct_nontrivial counts distinct (workers, tasks, submitters, peak concurrency).",
		Assumptions: []string{"an unprocessed task shows as a hang of the case, judged by a limit hundreds of times its normal duration"},
		MinEvals:    5000,
		CaseTimeout: 60e9,
		Workers:     4,
		Cases: func(tier string, seed int64) []kit.Case {
			n := 2400
			if tier == "thorough" {
				n = 3000
			}
			var cs []kit.Case
			for k := 0; k < n; k++ {
				cs = append(cs, one(k))
			}
			for w := 1; w <= 16; w++ {
				cs = append(cs, full(w))
			}
			return cs
		},
	})
}
