// C13: hashes appended one at a time to a created or preloaded index are found like preloaded ones.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	ih3 "github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"verifharness/kit"
	. "verifharness/lib/ix3"
)

func history(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("append/%d", k), Run: func(t *kit.T) {
		r := t.R
		dir := t.Dir()
		n := 30 + r.Intn(500)
		pre := []int{0, 1, 20, 300, 1000}[r.Intn(5)]
		s := RandShape(r, n+pre)
		g := NewGen(r, s)
		m := NewModel()
		var c ih.HashStoreCreator
		var err error
		what := fmt.Sprintf("%v appended=%d cluster=%d dups=%v", s, n, g.Cluster, g.Dups)
		created := r.Intn(3) == 0
		if created {
			what += " created"
			kit.Must(os.MkdirAll(filepath.Join(dir, "S"), 0755))
			if r.Intn(2) == 0 {
				// over an older one
				so := RandShape(r, 500)
				mo, og := NewModel(), NewGen(r, so)
				for i := 0; i < 400; i++ {
					mo.Add(og.Next())
				}
				WriteHashes(dir, "S", mo)
				_, _, err = Build(dir, "S", so, RandIndex(r), nil)
				t.NoErr(err, "older index")
			}
			c = ih3.NewHashStoreCreatorPrivate(s.Params(), filepath.Join(dir, "S"), false)
			t.NoErr(c.CreateHashStore(), "create")
			t.Count("created", 1)
		} else {
			for i := 0; i < pre; i++ {
				m.Add(g.Next())
			}
			WriteHashes(dir, "S", m)
			x := RandIndex(r)
			what += fmt.Sprintf(" preloaded=%d %v", pre, x)
			c, _, err = Build(dir, "S", s, x, nil)
			t.NoErr(err, "index")
			t.Count("preloaded", 1)
		}
		t.Sample("%s", what)
		sessions := 1 + r.Intn(3)
		for se := 0; se < sessions; se++ {
			if !created && r.Intn(2) == 0 {
				c, err = ih3.NewHashStoreCreatorFromFile(dir, "S", false)
				t.NoErr(err, "creator from file")
			}
			rw, err := c.OpenHashStore()
			t.NoErr(err, "open")
			w := fmt.Sprintf("%s session %d", what, se)
			for i := 0; i < n/sessions; i++ {
				h := g.Next()
				in := h
				idx, err := rw.AppendHash(&in)
				if err != nil || idx != int64(len(m.List)) {
					t.Fatalf("append", "%s: append returned %d (%v) want %d", w, idx, err, len(m.List))
				}
				if in != h {
					t.Fatalf("input-changed", "%s: appending changed the hash", w)
				}
				m.Add(h)
				t.Count("appends", 1)
				if m.First[h] != int64(len(m.List)-1) {
					t.Count("repeats_appended", 1)
				}
				CheckOne(t, w, rw, m, h)
				CheckAt(t, w, rw, m, idx, false)
				for j := 0; j < 3; j++ {
					CheckOne(t, w, rw, m, g.Pool[r.Intn(len(g.Pool))])
					CheckAt(t, w, rw, m, int64(r.Intn(len(m.List)+2)), false)
					CheckOne(t, w, rw, m, g.Near())
				}
				if r.Intn(50) == 0 {
					t.NoErr(rw.Sync(), "sync")
				}
			}
			CheckAll(t, w, rw, m, g, true)
			t.NoErr(rw.Close(), "close")
			ro, err := c.OpenHashStoreReadOnly()
			t.NoErr(err, "open read only")
			CheckAll(t, w+" read only", ro, m, g, true)
			t.NoErr(ro.Close(), "close")
			if !created {
				c2, err := ih3.NewHashStoreCreatorFromFile(dir, "S", true)
				t.NoErr(err, "creator from file")
				rw, err := c2.OpenHashStore()
				t.NoErr(err, "open in RAM")
				CheckAll(t, w+" in RAM", rw, m, g, true)
				t.NoErr(rw.Close(), "close")
			}
		}
		t.Count("overflow_files", CountOverflows(filepath.Join(dir, "S")))
		t.Distinct(s.Bins, s.Start, pre, n, g.Cluster, created)
	}}
}

// sparse tells whether files with big holes can be had here (the big ready-made parameters need one of 130 GB).
func sparse(t *kit.T) bool {
	f, err := os.Create(filepath.Join(t.Dir(), "hole"))
	kit.Must(err)
	defer os.Remove(f.Name())
	defer f.Close()
	if f.Truncate(200<<30) != nil {
		t.Count("no_big_holes", 1)
		return false
	}
	return true
}

// far: the ready-made parameters, and others, with as many hashes before as the real chain has: a hole in the file of
// bin numbers stands for those, and nothing asks for them.
func far(k int) kit.Case {
	ready := []func() *ih3.HashIndexingParams{ih3.Sensible16YearsTransactionHashParams, ih3.Sensible16YearsAddressHashParams,
		ih3.Sensible16YearsBlockHashParams, ih3.Sensible2YearsTransactionHashParams, ih3.Sensible2YearsAddressHashParams, ih3.Sensible2YearsBlockHashParams}
	return kit.Case{Name: fmt.Sprintf("far/%d", k), Run: func(t *kit.T) {
		if !sparse(t) {
			return
		}
		r := t.R
		var s Shape
		if k%8 < 6 {
			p := ready[k%8]()
			s = Shape{p.BitsPerHashIndex(), p.HashCountEstimate(), p.DigitsPerNumberedFolder(), p.NumberOfBins(), p.EntriesInBinStart(), p.BytesPerSortNum()}
			if s.Estimate > int64(1)<<uint(s.Bits) {
				t.Failf("too-small", "the parameters %v have no room for the hashes they are for", s)
			}
		} else {
			s = RandShape(r, 1000)
			s.Bits = 30 + int64(r.Intn(11))
		}
		room := int64(1) << uint(s.Bits)
		n := int64(150)
		starts := []int64{room - n - 1, s.Estimate - n}
		for _, b := range []uint{8, 15, 16, 24, 31, 32} {
			if c := int64(1)<<b - 70; c+n < room {
				starts = append(starts, c)
			}
		}
		base := max(starts[r.Intn(len(starts))], 0)
		if k < 6 {
			base = max(s.Estimate-n, 0)
		}
		dir := filepath.Join(t.Dir(), "S")
		kit.Must(os.MkdirAll(dir, 0755))
		params := s.Params()
		c := ih3.NewHashStoreCreatorPrivate(params, dir, false)
		t.NoErr(c.CreateHashStore(), "create")
		word := int64(0)
		for x := s.Bins - 1; x > 0; x >>= 8 {
			word++
		}
		kit.Must(os.Truncate(filepath.Join(dir, "BinNums.int"), base*word))
		what := fmt.Sprintf("%v, %d before", s, base)
		t.Sample("%s", what)
		rw, err := c.OpenHashStore()
		t.NoErr(err, "open")
		g := NewGen(r, s)
		g.Dups = false
		var list []ih.Sha256
		first := map[ih.Sha256]int64{}
		check := func(w string, st ih.HashReader) {
			count, err := st.CountHashes()
			if err != nil || count != base+int64(len(list)) {
				t.Fatalf("count", "%s: %d hashes (%v) want %d", w, count, err, base+int64(len(list)))
			}
			for i, h := range list {
				in := h
				idx, err := st.IndexOfHash(&in)
				if err != nil || idx != first[h] {
					t.Fatalf("index", "%s: hash %d found at %d (%v) want %d", w, i, idx, err, first[h])
				}
				var out ih.Sha256
				if first[h] == base+int64(i) {
					err = st.GetHashAtIndex(idx, &out)
					if err != nil || out != h {
						t.Fatalf("at", "%s: at %d is %x (%v) want %x", w, idx, out, err, h)
					}
				}
				near := g.Near()
				if _, has := first[near]; !has {
					idx, err = st.IndexOfHash(&near)
					if err != nil || idx != -1 {
						t.Fatalf("absent", "%s: a hash never appended is at %d (%v)", w, idx, err)
					}
				}
				t.Evals(3)
			}
		}
		for i := int64(0); i < n; i++ {
			h := g.Next()
			in := h
			idx, err := rw.AppendHash(&in)
			if err != nil || idx != base+i {
				t.Fatalf("append", "%s: append returned %d (%v) want %d", what, idx, err, base+i)
			}
			if _, has := first[h]; !has {
				first[h] = idx
			}
			list = append(list, h)
			t.Count("appends_far", 1)
			t.CountMax("furthest_index", idx)
		}
		check(what, rw)
		t.NoErr(rw.Close(), "close")
		ro, err := c.OpenHashStoreReadOnly()
		t.NoErr(err, "open read only")
		check(what+" read only", ro)
		t.NoErr(ro.Close(), "close")
		t.Distinct("far", s.Bins, s.Start, base)
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C13",
		Rule:     "histories of appends (colliding, repeated, bin-boundary and overflowing hashes) to created and preloaded indexes over several sessions, and to indexes with the ready-made parameters and as many hashes before (a hole) as those are for, each append followed by lookups of it, of older hashes and of near misses, and after each session everything asked read-write, read-only and in RAM. Distinct: shapes, sizes and clusters",
		MinEvals: 50000,
		Cases: func(tier string, seed int64) []kit.Case {
			n := 300
			if tier == "thorough" {
				n = 4000
			}
			var cs []kit.Case
			for i := 0; i < n/12; i++ {
				cs = append(cs, far(i))
			}
			for i := 0; i < n; i++ {
				cs = append(cs, history(i))
			}
			return cs
		},
	})
}
