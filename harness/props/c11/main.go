// C11: the multi-pass hash index finds every hash and nothing else.
package main

import (
	"fmt"
	"path/filepath"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	ih3 "github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"verifharness/kit"
	. "verifharness/lib/ix3"
)

func openBoth(t *kit.T, what, dir, name string, c ih.HashStoreCreator, m *Model, g *Gen) {
	ro, err := c.OpenHashStoreReadOnly()
	t.NoErr(err, "open read only")
	CheckAll(t, what, ro, m, g, false)
	t.NoErr(ro.Close(), "close")
	for _, ram := range []bool{false, true} {
		c2, err := ih3.NewHashStoreCreatorFromFile(dir, name, ram)
		t.NoErr(err, "creator from file")
		if !c2.HashStoreExists() {
			t.Failf("exists", "%s: store does not exist", what)
		}
		rw, err := c2.OpenHashStore()
		t.NoErr(err, "open")
		CheckAll(t, fmt.Sprintf("%s reopened ram=%v", what, ram), rw, m, g, false)
		t.NoErr(rw.Close(), "close")
	}
}

func index(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("index/%d", k), Run: func(t *kit.T) {
		r := t.R
		n := []int{0, 1, 2, 30, 200, 1000, 3000}[r.Intn(7)]
		dir := t.Dir()
		var ba *ih3.BinsArray
		if r.Intn(2) == 0 {
			ba = ih3.NewBinsArray(int64(1+r.Intn(4)), 20, int64(r.Intn(50)))
		}
		// one or several stores indexed with the same bins array, as the gatherer does
		for st := 0; st < 1+r.Intn(3); st++ {
			s := RandShape(r, n)
			g := NewGen(r, s)
			passes := int64(1)
			if r.Intn(3) > 0 {
				s = ManyPasses(r, s)
			}
			x := Index{Gb: 1, Threads: []int{1, 2, 3, 4, 7, 8, 16}[r.Intn(7)]}
			m := NewModel()
			for i := 0; i < n; i++ {
				m.Add(g.Next())
			}
			e := s.Estimate / s.Bins
			if e == 0 {
				e = 1
			}
			per := int64(1<<30) / (s.EntryBytes() * e)
			if per > 0 {
				passes = (s.Bins + per - 1) / per
			}
			name := fmt.Sprintf("S%d", st)
			what := fmt.Sprintf("%v n=%d cluster=%d dups=%v passes=%d %v store %d", s, n, g.Cluster, g.Dups, passes, x, st)
			t.Sample("%s", what)
			WriteHashes(dir, name, m)
			c, p, err := Build(dir, name, s, x, ba)
			t.NoErr(err, "index "+what)
			openBoth(t, what, dir, name, c, m, g)
			t.NoErr(p.TestTheHashes(), "test the hashes")
			t.Count("indexes_built", 1)
			t.Count("passes", passes)
			if passes > 1 {
				t.Count("multi_pass_indexes", 1)
			}
			t.Count("overflow_files", CountOverflows(filepath.Join(dir, name)))
			t.Count("repeats_stored", int64(len(m.List)-len(m.First)))
			t.Distinct(s.Bins, s.Start, s.Bits, s.SortBytes, n, g.Cluster, passes)
		}
	}}
}

// calculator: the documented ready-made parameters.
func sensible(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("sensible/%d", k), Run: func(t *kit.T) {
		p := []func() *ih3.HashIndexingParams{ih3.Sensible2YearsBlockHashParams, ih3.Sensible2YearsTransactionHashParams, ih3.Sensible2YearsAddressHashParams, ih3.Sensible16YearsBlockHashParams}[k%4]()
		s := Shape{p.BitsPerHashIndex(), p.HashCountEstimate(), p.DigitsPerNumberedFolder(), p.NumberOfBins(), p.EntriesInBinStart(), p.BytesPerSortNum()}
		m := NewModel()
		g := NewGen(t.R, s)
		for i := 0; i < 5000; i++ {
			m.Add(g.Next())
		}
		dir := t.Dir()
		WriteHashes(dir, "S", m)
		c, _, err := Build(dir, "S", s, Index{Gb: 1, Threads: 4}, nil)
		t.NoErr(err, "index")
		openBoth(t, fmt.Sprintf("sensible %v", s), dir, "S", c, m, g)
		t.Distinct("sensible", k%4)
	}}
}

// zero: a hash whose entry in the index is all zero bytes.
func zero(k int) kit.Case {
	names := []string{"alone", "with-others", "one-entry-start"}
	return kit.Case{Name: "zero-entry/" + names[k], Run: func(t *kit.T) {
		s := Shape{Bits: 16, Estimate: 10, Digits: 2, Bins: 2, Start: 4, SortBytes: 8}
		if k == 2 {
			s.Start = 1
		}
		m := NewModel()
		m.Add(ih.Sha256{})
		if k > 0 {
			m.Add(ih.Sha256{1})
			m.Add(ih.Sha256{0, 0, 0, 0, 0, 0, 0, 0, 1})
		}
		dir := t.Dir()
		WriteHashes(dir, "S", m)
		c, _, err := Build(dir, "S", s, Index{Gb: 1, Threads: 2}, nil)
		t.NoErr(err, "index")
		openBoth(t, "zero hash", dir, "S", c, m, NewGen(t.R, s))
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C11",
		Rule:     "files of hashes built to collide in bin, sort number and truncated hash, to lie on bin boundaries and at the extremes, to repeat and to overflow bins, indexed in one or many passes with 1-16 threads, for random and the ready-made parameters, stores sharing a bins array; every position, every hash, near misses and out of range positions asked read-only, read-write and in RAM. Distinct: parameter, size, cluster and pass-count combinations",
		MinEvals: 50000,
		Cases: func(tier string, seed int64) []kit.Case {
			n, m := 150, 4
			if tier == "thorough" {
				n, m = 4000, 40
			}
			cs := []kit.Case{zero(0), zero(1), zero(2)}
			for i := 0; i < m; i++ {
				cs = append(cs, sensible(i))
			}
			for i := 0; i < n; i++ {
				cs = append(cs, index(i))
			}
			return cs
		},
	})
}
