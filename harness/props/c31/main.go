// C31: stores in one process do not disturb each other.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"verifharness/kit"
	"verifharness/lib/subjects"
)

// pass lets an actor go on to its next step; steps may be given to one actor at a time, at random.
type pass interface {
	step()
	done()
}

// free: all actors at once.
type free struct{ r *rand.Rand }

func (f free) step() {
	switch f.r.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(f.r.Intn(300)) * time.Microsecond)
	}
}
func (f free) done() {}

// woven: one actor at a time, handing on at random.
type woven struct {
	mu    *sync.Mutex
	r     *rand.Rand
	gates map[int]chan struct{}
	order *[]int
	me    int
	steps *int64
}

func (w woven) next() {
	if len(*w.order) == 0 {
		return
	}
	w.gates[(*w.order)[w.r.Intn(len(*w.order))]] <- struct{}{}
}

func (w woven) step() {
	w.mu.Lock()
	*w.steps++
	w.next()
	w.mu.Unlock()
	<-w.gates[w.me]
}

func (w woven) done() {
	w.mu.Lock()
	for i, x := range *w.order {
		if x == w.me {
			*w.order = append((*w.order)[:i], (*w.order)[i+1:]...)
			break
		}
	}
	w.next()
	w.mu.Unlock()
}

// life builds a thing and uses it over some sessions.
func life(t *kit.T, s subjects.Subject, seed int64, dir string, p pass) (err error) {
	r := rand.New(rand.NewSource(seed))
	x := s.New(r)
	p.step()
	if err = x.Build(dir); err != nil {
		return fmt.Errorf("%s: building: %w", s.Name, err)
	}
	for n := 3 + r.Intn(3); n > 0; n-- {
		p.step()
		how, open := "for writing", x.RW
		if open == nil || (x.RO != nil && r.Intn(3) == 0) {
			how, open = "read only", x.RO
		}
		y, err := open(dir)
		if err != nil {
			return fmt.Errorf("%s: opening %s: %w", s.Name, how, err)
		}
		for k := 2 + r.Intn(8); k > 0; k-- {
			p.step()
			if y.Append != nil && r.Intn(2) == 0 {
				err = y.Append(r, 1+r.Intn(10))
			} else {
				err = y.Read(t, r, 5+r.Intn(20))
			}
			if err != nil {
				return fmt.Errorf("%s: open %s: %w", s.Name, how, err)
			}
			t.Count("steps", 1)
			if y.Sync != nil && r.Intn(5) == 0 {
				p.step()
				if err = y.Sync(); err != nil {
					return fmt.Errorf("%s: syncing: %w", s.Name, err)
				}
			}
		}
		p.step()
		if y.Close != nil {
			err = y.Close()
		} else if y.Sync != nil {
			err = y.Sync()
		}
		if err != nil {
			return fmt.Errorf("%s: closing: %w", s.Name, err)
		}
	}
	return nil
}

// guarded turns a panic of an actor into an error; kit's own way of ending a case has recorded its reason.
func guarded(f func() error) (err error) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 2000)
			err = fmt.Errorf("panic: %v\n%s", x, buf[:runtime.Stack(buf, false)])
		}
	}()
	return f()
}

func contents(dir string) map[string][]byte {
	m := map[string][]byte{}
	for _, f := range subjects.Files(dir) {
		b, err := os.ReadFile(filepath.Join(dir, f))
		kit.Must(err)
		m[f] = b
	}
	return m
}

func pick(r *rand.Rand, l []subjects.Subject) []subjects.Subject {
	var chosen []subjects.Subject
	n := 3 + r.Intn(4)
	for len(chosen) < n {
		s := l[r.Intn(len(l))]
		chosen = append(chosen, s)
		for r.Intn(3) == 0 { // the same kind of thing beside it
			chosen = append(chosen, s)
		}
	}
	return chosen
}

// company: things living at once, compared with the same lives led alone.
func company(k int, weave bool) kit.Case {
	name := "at-once"
	if weave {
		name = "woven"
	}
	return kit.Case{Name: fmt.Sprintf("%s/%d", name, k), Timeout: 6 * time.Minute, Run: func(t *kit.T) {
		r := t.R
		var l []subjects.Subject
		for _, s := range subjects.All() {
			if s.Name != "deep-cake" {
				l = append(l, s)
			}
		}
		chosen := pick(r, l)
		if k < len(l) { // every kind of thing comes with another of its kind
			chosen = append(chosen, l[k], l[k])
		}
		seeds := make([]int64, len(chosen))
		alone := make([]map[string][]byte, len(chosen))
		var names []interface{}
		for i, s := range chosen {
			names = append(names, s.Name)
			seeds[i] = r.Int63()
			dir := t.SubDir(fmt.Sprintf("alone%d", i))
			if err := guarded(func() error { return life(t, s, seeds[i], dir, free{rand.New(rand.NewSource(1))}) }); err != nil {
				t.Fatalf("alone", "alone: %v", err)
			}
			alone[i] = contents(dir)
		}
		errs := make([]error, len(chosen))
		dirs := make([]string, len(chosen))
		for i := range chosen {
			dirs[i] = t.SubDir(fmt.Sprintf("company%d", i))
		}
		var steps int64
		w := woven{mu: &sync.Mutex{}, r: rand.New(rand.NewSource(r.Int63())), gates: map[int]chan struct{}{}, order: &[]int{}, steps: &steps}
		for i := range chosen {
			w.gates[i] = make(chan struct{}, 1)
			*w.order = append(*w.order, i)
		}
		var wg sync.WaitGroup
		for i := range chosen {
			i := i
			var p pass = free{rand.New(rand.NewSource(r.Int63()))}
			if weave {
				v := w
				v.me = i
				p = v
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer p.done()
				if weave {
					<-w.gates[i]
				}
				errs[i] = guarded(func() error { return life(t, chosen[i], seeds[i], dirs[i], p) })
			}()
		}
		if weave {
			w.mu.Lock()
			w.next()
			w.mu.Unlock()
		}
		wg.Wait()
		for i, err := range errs {
			t.Evals(1)
			if err != nil {
				t.Fatalf("company", "one of %v: alone it was well, in company: %v", names, err)
			}
			now := contents(dirs[i])
			if len(now) != len(alone[i]) {
				t.Fatalf("files", "%s in the company of %v: %d files, alone it has %d", chosen[i].Name, names, len(now), len(alone[i]))
			}
			for f, b := range alone[i] {
				t.Evals(1)
				t.Count("files_compared", 1)
				if !bytes.Equal(b, now[f]) {
					t.Fatalf("bytes", "%s in the company of %v: %s differs from that of the same life led alone", chosen[i].Name, names, f)
				}
			}
			t.Count("lives", 1)
			t.Count("kind:"+chosen[i].Name, 1)
		}
		t.CountMax("at_once", int64(len(chosen)))
		t.Count("hand_overs", steps)
		t.Distinct(names...)
	}}
}

// readers: the same thing opened several times to be read, each used by a goroutine.
func readers(s subjects.Subject, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("readers/%s/%d", s.Name, k), Timeout: 6 * time.Minute, Run: func(t *kit.T) {
		r := t.R
		x := s.New(r)
		dir := t.SubDir("x")
		t.NoErr(x.Build(dir), "building")
		if x.RO == nil {
			return
		}
		one, err := x.RO(dir)
		t.NoErr(err, "opening read only")
		t.NoErr(one.Read(t, rand.New(rand.NewSource(1)), 50), "reading") // the model has cached what it caches, too
		before := contents(dir)
		n := 2 + r.Intn(5)
		open := make([]subjects.Session, n)
		errs := make([]error, n)
		for i := range open {
			open[i], err = x.RO(dir)
			t.NoErr(err, "opening read only")
		}
		if one.Close != nil && r.Intn(2) == 0 { // closing one does not take the others with it
			t.NoErr(one.Close(), "closing")
			one.Close = nil
		}
		var wg sync.WaitGroup
		for i := range open {
			i, seed, rounds, amount := i, r.Int63(), 2+r.Intn(4), 20+r.Intn(60)
			wg.Add(1)
			go func() {
				defer wg.Done()
				q := rand.New(rand.NewSource(seed))
				errs[i] = guarded(func() error {
					for ; rounds > 0; rounds-- {
						if err := open[i].Read(t, q, amount); err != nil {
							return err
						}
						t.Count("reads", 1)
					}
					if open[i].Close != nil && q.Intn(2) == 0 {
						c := open[i].Close
						open[i].Close = nil
						return c()
					}
					return nil
				})
			}()
		}
		wg.Wait()
		for i := range open {
			t.Evals(1)
			if errs[i] != nil {
				t.Fatalf("readers", "%s read by %d goroutines, each having opened it: %v", s.Name, n, errs[i])
			}
			if open[i].Close != nil {
				t.NoErr(open[i].Close(), "closing")
			}
		}
		if one.Close != nil {
			t.NoErr(one.Close(), "closing")
		}
		now := contents(dir)
		for f, b := range before {
			t.Evals(1)
			if !bytes.Equal(b, now[f]) {
				t.Fatalf("read-changed", "%s: %s changed while it was read", s.Name, f)
			}
		}
		t.CountMax("readers_at_once", int64(n))
		t.Distinct("readers", s.Name, n)
	}}
}

func main() {
	subjects.Light = true
	kit.Main(kit.Prop{
		ID: "C31", Level: "exercised",
		Rule: "several chain stores, hash lists, hash indexes, cakes, arrays and files, also several of one kind, live at once in one process, " +
			"each in its own folder, in goroutines of their own or handed one step after the other at random: every answer must be the model's " +
			"and the files the same, byte for byte, as after the same life led alone; one thing opened for reading several times answers each of its readers; " +
			"the race detector watches. Passing means no step of any life seen was disturbed by another's.",
		Assumptions: []string{"one opened object is used by one goroutine at a time", "while something is open for writing nobody else has it open"},
		Workers:     7, MinEvals: 300, CaseTimeout: 6 * time.Minute,
		Cases: func(tier string, seed int64) []kit.Case {
			n, reps := 26, 1
			if tier == "thorough" {
				n, reps = 160, 6
			}
			var cs []kit.Case
			for i := 0; i < n; i++ {
				cs = append(cs, company(i, false), company(i, true))
			}
			for k := 0; k < reps; k++ {
				for _, s := range subjects.All() {
					if s.Name != "deep-cake" || tier == "thorough" {
						cs = append(cs, readers(s, k))
					}
				}
			}
			return cs
		},
	})
}
