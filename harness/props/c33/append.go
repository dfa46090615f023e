package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"verifharness/kit"
	"verifharness/lib/faulty"
	"verifharness/lib/fdmon"
	"verifharness/lib/subjects"
)

// appending while reads fail.
func appending(s subjects.Subject, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("appending/%s/%d", s.Name, k), Timeout: 6 * time.Minute, Run: func(t *kit.T) {
		defer fdmon.Hold()()
		defer faulty.Disarm()
		r := t.R
		chain := strings.Contains(s.Name, "chain")
		seed, seed2, n := r.Int63(), r.Int63(), 1+r.Intn(6)
		start := func(name string) (*subjects.Thing, string, subjects.Session) {
			x := s.New(rand.New(rand.NewSource(seed)))
			dir := t.SubDir(name)
			t.NoErr(x.Build(dir), "building")
			if x.RW == nil {
				return x, dir, subjects.Session{}
			}
			y, err := x.RW(dir)
			t.NoErr(err, "opening for writing")
			return x, dir, y
		}
		_, dir, y := start("count")
		if y.Append == nil {
			t.Count("nothing_to_append_to", 1)
			t.Evals(1)
			if y.Close != nil {
				t.NoErr(y.Close(), "closing")
			}
			return
		}
		count := &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: -1}
		count.Arm()
		t.NoErr(y.Append(rand.New(rand.NewSource(seed2)), n), "appending")
		faulty.Disarm()
		if y.Close != nil {
			t.NoErr(y.Close(), "closing")
		}
		most := 12
		if chain {
			most = 6
		}
		if t.Thorough() {
			most *= 8
		}
		t.CountMax("operations_of_an_append", int64(count.Ops))
		for j, i := range count.Points(r, most) {
			mode := r.Intn(faulty.Modes)
			x, dir, y := start(fmt.Sprintf("x%d", j))
			p := &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: i, Mode: mode, Err: faulty.Errno(r)}
			var err error
			p.Arm()
			crash := guarded(func() { err = y.Append(rand.New(rand.NewSource(seed2)), n) })
			faulty.Disarm()
			what := fmt.Sprintf("%s, appending, %s failing (%v) %s", s.Name, p.First, p.Err, modes[mode])
			if p.Failed == 0 {
				t.NoErr(err, "appending without a fault")
				continue
			}
			t.Evals(1)
			t.Count("faults", 1)
			t.Count("faults_when_appending", 1)
			t.Distinct(s.Name, "append", p.First, mode)
			if crash != "" {
				t.Failf("crash", "%s: a crash: %s", what, crash)
				t.Retire()
				return
			}
			if subjects.IsWrong(err) {
				t.Failf("wrong", "%s: %v", what, err)
			}
			failed := err != nil
			if y.Sync != nil {
				if err := y.Sync(); err != nil {
					t.Failf("syncing", "%s; then syncing: %v", what, err)
				}
			}
			if y.Close != nil {
				if err := y.Close(); err != nil {
					t.Failf("closing", "%s; then closing: %v", what, err)
				}
			}
			if failed {
				t.Count("reported", 1)
				if chain {
					continue // a block may be there in part
				}
			} else {
				t.Count("appended_nevertheless", 1)
			}
			open := x.RO
			if open == nil {
				open = x.RW
			}
			y, err = open(dir)
			if err == nil {
				err = y.Read(t, rand.New(rand.NewSource(seed2)), 30)
				if y.Close != nil {
					t.NoErr(y.Close(), "closing")
				}
			}
			if err != nil {
				t.Failf("afterwards", "%s (%v); opened again, without faults: %v", what, failed, err)
			}
			t.Evals(1)
		}
	}}
}
