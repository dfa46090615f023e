// C14: the original hash stores behave as an append-only list with a (first) index for every hash.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/memfile"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"verifharness/kit"
)

// gen makes hashes. Its first bytes (the part the stores index by) come from a small pool
// (lowBits of entropy) so that partial hashes collide as often as wanted.
type gen struct {
	r       *rand.Rand
	lowBits int
	dup     bool
	pool    []ih.Sha256
}

func (g *gen) next() ih.Sha256 {
	var h ih.Sha256
	if g.dup && len(g.pool) > 0 && g.r.Intn(8) == 0 {
		return g.pool[g.r.Intn(len(g.pool))]
	}
	g.r.Read(h[:])
	switch g.r.Intn(12) {
	case 0:
		// the same as a stored one except for one bit anywhere
		if len(g.pool) > 0 {
			h = g.pool[g.r.Intn(len(g.pool))]
			h[g.r.Intn(32)] ^= 1 << g.r.Intn(8)
		}
	case 1:
		// first 8 bytes all ones or all zeroes
		v := byte(0)
		if g.r.Intn(2) == 0 {
			v = 255
		}
		for i := 0; i < 8; i++ {
			h[i] = v
		}
	default:
		// only lowBits of the first 8 bytes vary
		for i := 0; i < 8; i++ {
			keep := g.lowBits - 8*i
			if keep <= 0 {
				h[i] = 0
			} else if keep < 8 {
				h[i] &= byte(1<<keep) - 1
			}
		}
	}
	g.pool = append(g.pool, h)
	return h
}

// model of a store
type model struct {
	list  []ih.Sha256
	first map[ih.Sha256]int64
}

func newModel() *model { return &model{first: map[ih.Sha256]int64{}} }
func (m *model) add(h ih.Sha256) {
	if _, ok := m.first[h]; !ok {
		m.first[h] = int64(len(m.list))
	}
	m.list = append(m.list, h)
}

func checkOne(t *kit.T, what string, s ih.HashReader, m *model, h ih.Sha256) {
	in := h
	got, err := s.IndexOfHash(&in)
	want, ok := m.first[h]
	if !ok {
		want = -1
	}
	t.Evals(1)
	if err != nil || got != want {
		t.Fatalf("index-of-hash", "%s: index of %x is %d (%v), want %d; %d hashes stored", what, h, got, err, want, len(m.list))
	}
	if in != h {
		t.Fatalf("input-changed", "%s: looking up %x changed it", what, h)
	}
	if ok {
		t.Count("lookups_present", 1)
	} else {
		t.Count("lookups_absent", 1)
	}
}

func checkAt(t *kit.T, what string, s ih.HashReader, m *model, i int64, g *gen) {
	got := g.r.Int63()
	var h ih.Sha256
	h[0], h[31] = byte(got), byte(got>>8)
	err := s.GetHashAtIndex(i, &h)
	t.Evals(1)
	if i >= 0 && i < int64(len(m.list)) {
		if err != nil || h != m.list[i] {
			t.Fatalf("hash-at-index", "%s: hash at %d of %d is %x (%v), want %x", what, i, len(m.list), h, err, m.list[i])
		}
	} else if err == nil {
		t.Fatalf("hash-out-of-range", "%s: reading hash %d of %d gave %x without an error", what, i, len(m.list), h)
	}
}

func checkCount(t *kit.T, what string, s ih.HashReader, m *model) {
	n, err := s.CountHashes()
	if err != nil || n != int64(len(m.list)) {
		t.Fatalf("count", "%s: count is %d (%v), want %d", what, n, err, len(m.list))
	}
}

func checkAll(t *kit.T, what string, s ih.HashReader, m *model, g *gen) {
	checkCount(t, what, s, m)
	for i, h := range m.list {
		checkOne(t, what, s, m, h)
		checkAt(t, what, s, m, int64(i), g)
	}
	for i := 0; i < 40; i++ {
		// absent: fresh, or a near miss
		h := (&gen{r: g.r, lowBits: g.lowBits, pool: g.pool}).next()
		checkOne(t, what, s, m, h)
	}
	n := int64(len(m.list))
	for _, i := range []int64{-1, n, n + 1, n + 100} {
		checkAt(t, what, s, m, i, g)
	}
}

// history appends n hashes with lookups in between, then closes, reopens and continues.
func history(t *kit.T, what string, n int, sessions int, g *gen, m *model,
	open func() (ih.HashReadWriter, error), openRO func() (ih.HashReader, error)) {
	for sess := 0; sess < sessions; sess++ {
		w := fmt.Sprintf("%s session %d", what, sess)
		s, err := open()
		t.NoErr(err, "open")
		checkCount(t, w, s, m)
		checkAll(t, w+" just opened", s, m, g)
		for k := 0; k < n/sessions; k++ {
			h := g.next()
			in := h
			i, err := s.AppendHash(&in)
			if err != nil || i != int64(len(m.list)) {
				t.Fatalf("append", "%s: append of %x returned %d (%v), want %d", w, h, i, err, len(m.list))
			}
			if in != h {
				t.Fatalf("input-changed", "%s: appending %x changed it", w, h)
			}
			in[3] ^= 0x55 // the caller may reuse its variable
			m.add(h)
			t.Evals(1)
			t.Count("appends", 1)
			checkOne(t, w, s, m, h)
			for x := 0; x < 2; x++ {
				checkOne(t, w, s, m, g.pool[g.r.Intn(len(g.pool))])
				checkAt(t, w, s, m, g.r.Int63n(int64(len(m.list)+2)), g)
			}
			if g.r.Intn(40) == 0 {
				t.NoErr(s.Sync(), "sync")
			}
		}
		checkAll(t, w+" before close", s, m, g)
		t.NoErr(s.Close(), "close")
		if openRO != nil {
			ro, err := openRO()
			t.NoErr(err, "open read only")
			checkAll(t, w+" read only", ro, m, g)
			t.NoErr(ro.Close(), "close read only")
		}
	}
}

func hashStore(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("hashstore/%d", k), Run: func(t *kit.T) {
		r := t.R
		bits := []int{1, 2, 3, 4, 6, 8, 10, 12, 16}[r.Intn(9)]
		nbytes := 1 + r.Intn(7)
		cpc := 2 + r.Intn(7)
		mem, opt := r.Intn(2) == 0, r.Intn(2) == 0
		n := 20 + r.Intn(400)
		if nbytes == 1 && n > 100 {
			n = 100
		}
		g := &gen{r: r, lowBits: bits, dup: r.Intn(2) == 0}
		if r.Intn(3) == 0 {
			g.lowBits = 20
		}
		what := fmt.Sprintf("HashStore bits=%d entry=%d perchunk=%d mem=%v opt=%v", bits, nbytes, cpc, mem, opt)
		t.Sample("%s appends=%d", what, n)
		c, err := ih.NewConcreteHashStoreCreator("hs", filepath.Join(t.Dir(), "f"), int64(bits), int64(nbytes), int64(cpc), mem, opt)
		t.NoErr(err, "creator")
		if c.HashStoreExists() {
			t.Failf("exists", "a store that was not created exists")
		}
		if r.Intn(2) == 0 {
			// leftovers of an earlier store are wiped by create
			t.NoErr(c.CreateHashStore(), "create")
			history(t, what+" (earlier)", 10, 1, &gen{r: r, lowBits: bits}, newModel(), c.OpenHashStore, c.OpenHashStoreReadOnly)
		}
		t.NoErr(c.CreateHashStore(), "create")
		if !c.HashStoreExists() {
			t.Failf("exists", "the created store does not exist")
		}
		m := newModel()
		history(t, what, n, 1+r.Intn(3), g, m, c.OpenHashStore, c.OpenHashStoreReadOnly)
		t.Distinct("hashstore", bits, nbytes, cpc, mem, opt)
	}}
}

// capacity: a one byte entry can index 127 hashes; the 128th must be refused and leave no trace.
func capacity(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("capacity/%d", k), Run: func(t *kit.T) {
		bits, cpc := 1+t.R.Intn(10), 2+t.R.Intn(7)
		c, err := ih.NewConcreteHashStoreCreator("hs", t.SubDir("f"), int64(bits), 1, int64(cpc), k%2 == 0, k%3 == 0)
		t.NoErr(err, "creator")
		t.NoErr(c.CreateHashStore(), "create")
		s, err := c.OpenHashStore()
		t.NoErr(err, "open")
		g := &gen{r: t.R, lowBits: bits}
		m := newModel()
		refused := 0
		for i := 0; i < 140; i++ {
			h := g.next()
			idx, err := s.AppendHash(&h)
			if err != nil {
				refused++
				if i < 127 && cpc < 8 {
					t.Fatalf("capacity:early", "hash %d refused: %v", i, err)
				}
			} else {
				if idx != int64(len(m.list)) {
					t.Fatalf("append", "append returned %d want %d", idx, len(m.list))
				}
				m.add(h)
			}
			t.Evals(1)
		}
		t.Count("refused_when_full", int64(refused))
		if len(m.list) < 126 {
			t.Failf("capacity:early", "only %d hashes accepted", len(m.list))
		}
		checkAll(t, fmt.Sprintf("full store bits=%d perchunk=%d", bits, cpc), s, m, g)
		t.NoErr(s.Close(), "close")
		s2, err := c.OpenHashStore()
		t.NoErr(err, "open")
		checkAll(t, "full store reopened", s2, m, g)
		t.NoErr(s2.Close(), "close")
		t.Distinct("capacity", bits, cpc)
	}}
}

// geometry: whatever geometry the creator accepts must not lose hashes.
func geometry() kit.Case {
	return kit.Case{Name: "geometry", Run: func(t *kit.T) {
		for nbytes := 1; nbytes <= 9; nbytes++ {
			for cpc := 1; cpc <= 10; cpc++ {
				c, err := ih.NewConcreteHashStoreCreator("hs", t.SubDir(fmt.Sprintf("g%d_%d", nbytes, cpc)), 2, int64(nbytes), int64(cpc), false, false)
				if err != nil {
					t.Count("geometries_refused", 1)
					continue
				}
				t.NoErr(c.CreateHashStore(), "create")
				s, err := c.OpenHashStore()
				t.NoErr(err, "open")
				g := &gen{r: t.R, lowBits: 2}
				m := newModel()
				ok := true
				for i := 0; i < 60 && ok; i++ {
					h := g.next()
					if _, err := s.AppendHash(&h); err != nil {
						ok = false
						if nbytes <= 7 && cpc >= 2 && cpc <= 8 {
							t.Fatalf("geometry:refused", "entry=%d perchunk=%d: append %d: %v", nbytes, cpc, i, err)
						}
						break
					}
					m.add(h)
				}
				if ok {
					checkAll(t, fmt.Sprintf("entry=%d perchunk=%d", nbytes, cpc), s, m, g)
					t.Count("geometries_used", 1)
					t.Distinct("geometry", nbytes, cpc)
				}
				s.Close()
			}
		}
	}}
}

func memory(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("memory/%d", k), Run: func(t *kit.T) {
		r := t.R
		c, err := ih.NewConcreteHashStoreCreatorMemory("hs", filepath.Join(t.Dir(), "f"))
		t.NoErr(err, "creator")
		if c.HashStoreExists() {
			t.Failf("exists", "a store that was not created exists")
		}
		t.NoErr(c.CreateHashStore(), "create")
		if !c.HashStoreExists() {
			t.Failf("exists", "the created store does not exist")
		}
		g := &gen{r: r, lowBits: []int{4, 20, 64}[r.Intn(3)], dup: r.Intn(2) == 0}
		n := 10 + r.Intn(400)
		m := newModel()
		history(t, "memory index", n, 1+r.Intn(4), g, m, c.OpenHashStore, c.OpenHashStoreReadOnly)
		// The documented create wipes
		if r.Intn(2) == 0 {
			t.NoErr(c.CreateHashStore(), "create")
			history(t, "memory index, recreated", 20, 1, g, newModel(), c.OpenHashStore, c.OpenHashStoreReadOnly)
		}
		t.Distinct("memory", n)
	}}
}

func basic(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("basic/%d", k), Run: func(t *kit.T) {
		r := t.R
		fn := filepath.Join(t.Dir(), "b.hsh")
		f, err := os.Create(fn)
		kit.Must(err)
		f.Close()
		opt := r.Intn(2) == 0
		open := func() (ih.HashReadWriter, error) {
			f, err := os.OpenFile(fn, os.O_RDWR, 0)
			kit.Must(err)
			st, err := f.Stat()
			kit.Must(err)
			var a memfile.AppendableLookupFile = f
			if opt {
				a, err = memfile.NewAppendOptimizedFile(f)
				if err != nil {
					return nil, err
				}
			}
			return ih.NewBasicHashStore(wordfile.NewHashFile(a, st.Size()/32)), nil
		}
		g := &gen{r: r, lowBits: 20, dup: r.Intn(2) == 0}
		n := 10 + r.Intn(200)
		history(t, fmt.Sprintf("basic opt=%v", opt), n, 1+r.Intn(3), g, newModel(), open, nil)
		t.Distinct("basic", n, opt)
	}}
}

// uniform: a store preloaded from a file of hashes, then appended to.
func uniform(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("uniform/%d", k), Run: func(t *kit.T) {
		r := t.R
		est := []int64{1, 75, 150, 230, 375, 600, 2000, 75000}[r.Intn(8)]
		digits := []int{1, 2, 2, 3}[r.Intn(4)]
		n := []int{0, 1, 10, 200, 700, 2500}[r.Intn(6)]
		g := &gen{r: r, lowBits: 64, dup: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			g.lowBits = 3 + r.Intn(10) // nearly all in the same bin: overflow files
		}
		binsPerPass := []int64{1, 2, 3, 7, 50, 1000000}[r.Intn(6)]
		if est > 10000 {
			binsPerPass = []int64{300, 999, 1000, 1000000}[r.Intn(4)]
		}
		what := fmt.Sprintf("uniform est=%d digits=%d n=%d lowbits=%d binsPerPass=%d", est, digits, n, g.lowBits, binsPerPass)
		t.Sample("%s", what)
		dir := t.SubDir("u")
		c, _ := ih.NewUniformHashStoreCreatorAndPreloader(dir, "U", est, digits, 1)
		t.NoErr(c.CreateHashStore(), "create")
		m := newModel()
		var raw []byte
		for i := 0; i < n; i++ {
			h := g.next()
			raw = append(raw, h[:]...)
			m.add(h)
		}
		rounds := 1 + r.Intn(2)
		for round := 0; round < rounds; round++ {
			if round > 0 {
				// index again over the older index, for a different list of hashes
				m = newModel()
				raw = raw[:0]
				g = &gen{r: r, lowBits: 64}
				for i := 0; i < n/2; i++ {
					h := g.next()
					raw = append(raw, h[:]...)
					m.add(h)
				}
			}
			kit.Must(os.WriteFile(filepath.Join(dir, "U", "Hashes.hsh"), raw, 0644))
			c2, pl, err := ih.NewUniformHashStoreCreatorAndPreloaderFromFile(dir, "U", 1)
			t.NoErr(err, "creator from file")
			if binsPerPass < 1000000 {
				pl = ih.NewMultipassPreloader(c2, binsPerPass*832)
			}
			t.NoErr(pl.IndexTheHashes(), "index")
			ro, err := c2.OpenHashStoreReadOnly()
			t.NoErr(err, "open read only")
			checkAll(t, what, ro, m, g)
			t.NoErr(ro.Close(), "close")
			if !c2.HashStoreExists() {
				t.Failf("exists", "the created store does not exist")
			}
			// the creator that was not read back from the file agrees
			history(t, what+" appended", 150, 2, g, m, c.OpenHashStore, c2.OpenHashStoreReadOnly)
		}
		t.Distinct("uniform", est, digits, n, g.lowBits, binsPerPass)
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:          "C14",
		Rule:        "random histories of appends, lookups (present, absent, one-bit near misses), reads in and out of range, syncs, closes and reopens on every store kind; hashes drawn so that the indexed part collides, repeats or is all ones/zeroes; all store geometries. Distinct: geometries and sizes used",
		MinEvals:    50000,
		Assumptions: []string{"the lookup geometry of the original store needs 2-8 collisions per chunk and entries of 1-7 bytes; others must be refused"},
		Cases: func(tier string, seed int64) []kit.Case {
			n := 40
			if tier == "thorough" {
				n = 1000
			}
			cs := []kit.Case{geometry()}
			for i := 0; i < n; i++ {
				cs = append(cs, hashStore(i), memory(i), basic(i), uniform(i))
				if i < n/4 {
					cs = append(cs, capacity(i))
				}
			}
			return cs
		},
	})
}
