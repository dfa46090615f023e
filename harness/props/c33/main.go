// C33: a read that fails is reported, never taken for an answer.
package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"verifharness/kit"
	"verifharness/lib/faulty"
	"verifharness/lib/fdmon"
	"verifharness/lib/subjects"
)

func guarded(f func()) string { return faulty.Guarded(f) }

var modes = faulty.ModeName

func reading(s subjects.Subject, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("reading/%s/%d", s.Name, k), Timeout: 6 * time.Minute, Run: func(t *kit.T) {
		defer fdmon.Hold()()
		defer faulty.Disarm()
		r := t.R
		x := s.New(r)
		dir := t.SubDir("x")
		t.NoErr(x.Build(dir), "building")
		opens := map[string]func(string) (subjects.Session, error){}
		if x.RO != nil {
			opens["read only"] = x.RO
		}
		if x.RW != nil && !strings.HasPrefix(s.Name, "chain/") {
			opens["for writing"] = x.RW
		}
		amount := 2 + r.Intn(6)
		for _, how := range []string{"read only", "for writing"} {
			open := opens[how]
			if open == nil {
				continue
			}
			seed := r.Int63()
			use := func(y subjects.Session) error { return y.Read(t, rand.New(rand.NewSource(seed)), amount) }
			// how many operations are there?
			count := &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: -1}
			count.Arm()
			y, err := open(dir)
			t.NoErr(err, "opening "+how)
			t.NoErr(use(y), "reading")
			faulty.Disarm()
			if y.Close != nil {
				t.NoErr(y.Close(), "closing")
			}
			t.CountMax("operations", int64(count.Ops))
			most := 60
			if t.Thorough() {
				most = 600
			}
			modes := []int{0, 1, 2}
			if s.Name == "deep-cake" { // which takes long to open
				most /= 2
				modes = modes[:1]
			}
			for _, i := range count.Points(r, most) {
				for _, mode := range modes {
					if len(modes) == 1 {
						mode = r.Intn(faulty.Modes)
					}
					p := &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: i, Mode: mode, Err: faulty.Errno(r)}
					var y subjects.Session
					var err error
					at := "opening"
					p.Arm()
					crash := guarded(func() {
						if y, err = open(dir); err == nil {
							at = "reading"
							err = use(y)
						}
					})
					faulty.Disarm()
					what := func() string {
						return fmt.Sprintf("%s, %s %s, %s failing (%v) %s", s.Name, at, how, p.First, p.Err, faulty.ModeName[mode])
					}
					if p.Failed == 0 {
						if err != nil {
							t.Fatalf("no-fault", "%s, %s %s: %v without any fault", s.Name, at, how, err)
						}
						t.Count("not_reached", 1)
					} else {
						t.Evals(1)
						t.Count("faults", 1)
						t.Distinct(s.Name, how, p.First, mode)
					}
					if crash != "" {
						t.Failf("crash", "%s: a crash: %s", what(), crash)
						t.Retire()
						return
					}
					if err != nil {
						t.Count("reported", 1)
					} else {
						t.Count("answered_well_nevertheless", 1)
					}
					if subjects.IsWrong(err) {
						t.Failf("wrong", "%s: %v", what(), err)
					}
					if at == "opening" {
						if l := fdmon.Open(dir); len(l) > 0 {
							t.Failf("open", "%s (%v): still open: %s", what(), err, fdmon.Short(l))
							t.Retire()
							return
						}
						continue
					}
					// the disk works again
					crash = guarded(func() { err = use(y) })
					if crash != "" || err != nil {
						t.Failf("afterwards", "%s; then, without faults: %v %s", what(), err, crash)
					}
					t.Evals(1)
					if y.Close != nil {
						if err := y.Close(); err != nil {
							t.Failf("closing", "%s; then closing: %v", what(), err)
						}
					}
				}
			}
			y, err = open(dir)
			t.NoErr(err, "opening once more")
			t.NoErr(use(y), "reading once more")
			if y.Close != nil {
				t.NoErr(y.Close(), "closing")
			}
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID: "C33", Level: "exercised", Workers: 8, MinEvals: 2000, CaseTimeout: 6 * time.Minute,
		Rule: "one operation of the operating system on the folder of a store - an open, read, seek, stat or listing - or that and all later ones, " +
			"fails with an error while the store is opened, read, appended to, or its hashes are indexed; package os is compiled with a hook for it. " +
			"Every operation (or a sample, as many of each kind on each file as can be) is made to fail. An answer given without an error must be the right one; " +
			"nothing may crash or hang; a failed open leaves nothing open; when the disk works again the same questions get the right answers, and what an " +
			"append or an indexing claimed to have stored is there. Passing means every fault injected was reported or did no harm.",
		Assumptions: []string{
			"calls without an error to return (Address.Hash, Height of a handle made from a hash alone, WordFileExists, HashStoreExists) can report nothing and are not made while reads fail",
			"reads of mapped memory do not fail here",
			"a failed append may leave a block of a chain stored in part",
		},
		Cases: func(tier string, seed int64) []kit.Case {
			n := 1
			if tier == "thorough" {
				n = 12
			}
			var cs []kit.Case
			for k := 0; k < n; k++ {
				cs = append(cs, chains(k))
				for i := 0; i < 6; i++ {
					cs = append(cs, indexing(6*k+i))
				}
				for _, s := range subjects.All() {
					if s.Name != "deep-cake" && s.Name != "chain/in-ram" {
						cs = append(cs, appending(s, k))
					}
					if strings.HasPrefix(s.Name, "chain/") {
						continue
					}
					if s.Name == "deep-cake" && k%3 > 0 {
						continue
					}
					cs = append(cs, reading(s, k))
				}
			}
			return cs
		},
	})
}
