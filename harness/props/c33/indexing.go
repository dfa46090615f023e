package main

import (
	"fmt"
	"strings"
	"time"

	"verifharness/kit"
	"verifharness/lib/faulty"
	"verifharness/lib/fdmon"
	"verifharness/lib/ix3"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	ih3 "github.com/KitchenMishap/pudding-shed/indexedhashes3"
)

// indexing a list of hashes while reads fail.
func indexing(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("indexing/%d", k), Timeout: 6 * time.Minute, Run: func(t *kit.T) {
		defer fdmon.Hold()()
		defer faulty.Disarm()
		r := t.R
		kind := []string{"adaptive", "multi-pass", "uniform"}[k%3]
		var sh ix3.Shape
		m := ix3.NewModel()
		g := (*ix3.Gen)(nil)
		n := 1 + r.Intn(600)
		if k%2 == 1 {
			n = 60 + r.Intn(200)
		}
		sh = ix3.RandShape(r, n)
		g = ix3.NewGen(r, sh)
		for i := 0; i < n; i++ {
			m.Add(g.Next())
		}
		ix := ix3.Index{Adaptive: kind == "adaptive", Gb: 1, Threads: 1 + r.Intn(4)}
		build := func(dir string) (ih.HashStoreCreator, *ih3.MultipassPreloader, error) {
			if kind == "uniform" {
				c, p := ih.NewUniformHashStoreCreatorAndPreloader(dir, "h", int64(75*(1+n/75)), 2, 1)
				return c, nil, p.IndexTheHashes()
			}
			if kind == "adaptive" {
				c, p, err := ih3.NewHashStoreCreatorAndPreloaderAdaptive(dir, "h", sh.Params(), ix.Gb)
				if err != nil {
					return nil, nil, err
				}
				return c, nil, p.IndexTheHashes(ix.Threads)
			}
			c, p, err := ih3.NewHashStoreCreatorAndPreloader(dir, "h", sh.Params(), ix.Gb, ih3.NewBinsArray(sh.Start, sh.EntryBytes(), 1))
			if err != nil {
				return nil, nil, err
			}
			return c, p, p.IndexTheHashes(ix.Threads)
		}
		look := func(what string, c ih.HashStoreCreator) {
			s, err := c.OpenHashStoreReadOnly()
			t.NoErr(err, "opening")
			for i := range m.List {
				ix3.CheckOne(t, what, s, m, m.List[i])
				ix3.CheckAt(t, what, s, m, int64(i), kind == "uniform")
			}
			ix3.CheckCount(t, what, s, m)
			t.NoErr(s.Close(), "closing")
		}
		dir := t.SubDir("count")
		ix3.WriteHashes(dir, "h", m)
		count := &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: -1}
		count.Arm()
		c, mp, err := build(dir)
		faulty.Disarm()
		t.NoErr(err, "indexing")
		look(kind+" without faults", c)
		t.CountMax("operations_of_an_indexing", int64(count.Ops))
		most := 8
		if t.Thorough() {
			most = 60
		}
		trial := func(what, dir string, at int, f func() error) (reported, ok bool, first string) {
			mode := r.Intn(faulty.Modes)
			p := &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: at, Mode: mode, Err: faulty.Errno(r)}
			var err error
			p.Arm()
			crash := guarded(func() { err = f() })
			faulty.Disarm()
			what = fmt.Sprintf("%s (%s, %d hashes, %v), %s failing (%v) %s", what, kind, n, sh, p.First, p.Err, modes[mode])
			if p.Failed == 0 {
				t.NoErr(err, "without a fault")
				return false, true, "stat "
			}
			t.Evals(1)
			t.Count("faults", 1)
			t.Count("faults_when_indexing", 1)
			t.Distinct("indexing", kind, p.First, mode)
			if crash != "" {
				t.Failf("crash", "%s: a crash: %s", what, crash)
				t.Retire()
				return false, false, ""
			}
			if l := fdmon.Open(dir); len(l) > 0 {
				t.Failf("open", "%s (%v): still open: %s", what, err, fdmon.Short(l))
				t.Retire()
				return false, false, ""
			}
			if err != nil {
				t.Count("reported", 1)
			}
			return err != nil, true, p.First
		}
		for j, i := range count.Points(r, most) {
			dir := t.SubDir(fmt.Sprintf("x%d", j))
			ix3.WriteHashes(dir, "h", m)
			var c ih.HashStoreCreator
			reported, ok, _ := trial("indexing", dir, i, func() (err error) { c, _, err = build(dir); return })
			if !ok {
				return
			}
			if !reported {
				look("indexed nevertheless", c)
				t.Count("indexed_nevertheless", 1)
			}
		}
		// looking all of it over
		test := func() error { return nil }
		switch {
		case mp != nil:
			test = mp.TestTheHashes
		case kind == "uniform":
			test = func() error {
				c, _, err := ih.NewUniformHashStoreCreatorAndPreloaderFromFile(dir, "h", 1)
				if err != nil {
					return err
				}
				s, err := c.OpenHashStore()
				if err != nil {
					return err
				}
				defer s.Close()
				ok, err := s.(*ih.UniformHashStore).Test()
				if err == nil && !ok {
					t.Failf("test", "a uniform hash store with %d hashes is said to be wrong", n)
				}
				return err
			}
		default:
			return
		}
		count = &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: -1}
		count.Arm()
		err = test()
		faulty.Disarm()
		t.NoErr(err, "testing the hashes")
		for _, i := range count.Points(r, most) {
			reported, ok, first := trial("testing the hashes", dir, i, test)
			if !ok {
				return
			}
			// os.ReadFile does without the size of the file
			if !reported && !strings.HasPrefix(first, "stat ") {
				t.Failf("unreported", "testing the hashes (%s, %d hashes): %s failing is not reported", kind, n, first)
			}
		}
	}}
}
