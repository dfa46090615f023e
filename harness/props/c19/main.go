// C19: every hash appended to a tiered cake is found at its position, through all bakings; others are not.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/weddingcakeback"
	"github.com/KitchenMishap/pudding-shed/weddingcakefront"
	"verifharness/kit"
)

type hash = [32]byte

// ---- hashes ----

// kinds of hash sets; all give distinct hashes (the model refuses repeats).
var kinds = []string{"uniform", "prefix", "fewbytes", "twovalues", "lastbyte", "unary", "zeroheavy"}

func draw(r *rand.Rand, kind string, i int) hash {
	var h hash
	switch kind {
	case "uniform":
		r.Read(h[:])
	case "prefix": // a few first bytes, the rest uniform
		r.Read(h[:])
		h[0] = byte(r.Intn(3)) * 127
		h[1] = byte(r.Intn(2)) * 255
		h[2] = byte(r.Intn(4))
	case "fewbytes": // a counter spread over bytes that are elsewhere constant
		for k := range h {
			h[k] = 0x5A
		}
		v := r.Uint32()
		h[3], h[9], h[17], h[31] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
	case "twovalues": // every byte has two values only: deep trees
		v := r.Uint32()
		for k := range h {
			h[k] = 0x10
			if v>>k&1 != 0 {
				h[k] = 0x11
			}
		}
	case "lastbyte": // groups which differ in the last bytes only
		g := rand.New(rand.NewSource(int64(r.Intn(40))))
		g.Read(h[:])
		h[30] = byte(r.Intn(8))
		h[31] = byte(r.Intn(256))
	case "unary": // n leading bytes of one value: chains
		n := r.Intn(33)
		for k := 0; k < n; k++ {
			h[k] = 1
		}
		if n < 32 && r.Intn(2) == 0 {
			h[n] = byte(r.Intn(256))
		}
	case "zeroheavy":
		for k := 0; k < 1+r.Intn(6); k++ {
			h[r.Intn(32)] = byte(r.Intn(256))
		}
	}
	return h
}

type model struct {
	list []hash
	pos  map[hash]int
}

func newModel() *model { return &model{pos: map[hash]int{}} }
func (m *model) fresh(r *rand.Rand, kind string) hash {
	for try := 0; ; try++ {
		if try > 40 {
			kind = "uniform"
		}
		h := draw(r, kind, len(m.list))
		if _, dup := m.pos[h]; !dup {
			return h
		}
	}
}
func (m *model) add(h hash) {
	m.pos[h] = len(m.list)
	m.list = append(m.list, h)
}

// near gives a hash not stored that shares almost every byte with a stored one.
func (m *model) absent(r *rand.Rand, kind string) hash {
	for {
		var h hash
		switch r.Intn(3) {
		case 0:
			h = draw(r, kind, 0)
		case 1:
			r.Read(h[:])
		default:
			if len(m.list) == 0 {
				continue
			}
			h = m.list[r.Intn(len(m.list))]
			for k := 0; k < 1+r.Intn(2); k++ {
				h[r.Intn(32)] ^= 1 << r.Intn(8)
			}
		}
		if _, dup := m.pos[h]; !dup {
			return h
		}
	}
}

// ---- looking up through a chain of tiers ----

type cake interface {
	IndexOfHash(h *hash) (int64, error)
	GetHashAtIndex(i int64, h *hash) error
}

type chain struct{ first weddingcakeback.TierReadable }

func (c chain) IndexOfHash(h *hash) (int64, error) {
	for r := c.first; r != nil; r = r.GetNextTier() {
		pi, found, err := r.TryIndexOfHash(h[:])
		if err != nil || found {
			return int64(pi), err
		}
	}
	return -1, nil
}
func (c chain) GetHashAtIndex(i int64, h *hash) error {
	for r := c.first; r != nil; r = r.GetNextTier() {
		found, err := r.TryGetHashAtIndex(weddingcakeback.GlobalPiType(i), h[:])
		if err != nil || found {
			return err
		}
	}
	return fmt.Errorf("no hash at index %d", i)
}

func verifyAt(t *kit.T, c cake, m *model, i int, where string) {
	h := m.list[i]
	got, err := c.IndexOfHash(&h)
	t.NoErr(err, where+": IndexOfHash")
	if got != int64(i) {
		t.Fatalf("position-of-hash", "%s: the hash %x of position %d (of %d) is found at %d", where, h, i, len(m.list), got)
	}
	if h != m.list[i] {
		t.Fatalf("argument-changed", "%s: IndexOfHash changed the hash it was asked for", where)
	}
	var b hash
	t.NoErr(c.GetHashAtIndex(int64(i), &b), where+": GetHashAtIndex")
	if b != h {
		t.Fatalf("hash-at-position", "%s: the hash at position %d (of %d) reads %x, appended %x", where, i, len(m.list), b, h)
	}
	t.Evals(2)
}

func verifyAbsent(t *kit.T, c cake, m *model, r *rand.Rand, kind string, n int, where string) {
	for k := 0; k < n; k++ {
		h := m.absent(r, kind)
		got, err := c.IndexOfHash(&h)
		t.NoErr(err, where+": IndexOfHash of an absent hash")
		if got != -1 {
			t.Fatalf("absent-found", "%s: the hash %x, never appended, is found at %d (of %d)", where, h, got, len(m.list))
		}
		t.Evals(1)
	}
	for _, i := range []int64{-1, int64(len(m.list)), int64(len(m.list)) + 70000} {
		var b hash
		if c.GetHashAtIndex(i, &b) == nil {
			t.Fatalf("beyond-end", "%s: position %d of %d has a hash (%x)", where, i, len(m.list), b)
		}
		t.Evals(1)
	}
	t.Count("absent_looked_up", int64(n))
}

func verifyAll(t *kit.T, c cake, m *model, r *rand.Rand, kind string, where string) {
	for i := range m.list {
		verifyAt(t, c, m, i, where)
	}
	verifyAbsent(t, c, m, r, kind, 150, where)
	t.Count("positions_verified", int64(len(m.list)))
}

func verifySome(t *kit.T, c cake, m *model, r *rand.Rand, kind string, n int, where string) {
	seen := 0
	at := func(i int) {
		if i >= 0 && i < len(m.list) {
			verifyAt(t, c, m, i, where)
			seen++
		}
	}
	for edge := 0; edge <= len(m.list); edge += 65535 {
		for d := -2; d <= 2; d++ {
			at(edge + d)
		}
	}
	for d := 1; d <= 3; d++ {
		at(len(m.list) - d)
	}
	for k := 0; k < n && len(m.list) > 0; k++ {
		at(r.Intn(len(m.list)))
	}
	verifyAbsent(t, c, m, r, kind, n/2+5, where)
	t.Count("positions_verified", int64(seen))
}

// ---- small forests: the real writer and readers behind a source tier of a few hashes ----

// source stands for the tier on top, which holds a few hashes instead of 65535.
type source struct {
	cfg    *weddingcakeback.CakeConfig
	batch  []hash
	first  int
	next   weddingcakeback.TierReadable
	emptyd int
}

func (s *source) GetIndicesCount() uint64 { return 1 }
func (s *source) GetHashesAtIndex(index uint64, offset weddingcakeback.GlobalPiType) []weddingcakeback.SingleTreeHash {
	if index != 0 {
		panic("index out of range")
	}
	var res []weddingcakeback.SingleTreeHash
	for i := range s.batch {
		res = append(res, weddingcakeback.SingleTreeHash{
			Hash:              append([]byte(nil), s.batch[i][:]...),
			PresentationIndex: weddingcakeback.SingleTreePiFromGlobalPi(offset + weddingcakeback.GlobalPiType(i)),
		})
	}
	return res
}
func (s *source) GetNextTierPrefixBytesCount() byte {
	return s.cfg.TierBelowConfigs[0].PrefixBytesCount
}
func (s *source) GetNextTierIndex() byte { return 0 }
func (s *source) AppendHashesFile(f *os.File) error {
	for i := range s.batch {
		if _, err := f.Write(s.batch[i][:]); err != nil {
			f.Close()
			return err
		}
	}
	return f.Close()
}
func (s *source) GetFirstPresentationIndex() weddingcakeback.GlobalPiType {
	return weddingcakeback.GlobalPiType(s.first)
}
func (s *source) MakeEmptyAfterBaking() error {
	s.first += len(s.batch)
	s.batch = nil
	s.emptyd++
	if s.next != nil {
		if err := s.next.CloseThis(); err != nil {
			return err
		}
		s.next = nil
	}
	return nil
}
func (s *source) SetNextTier(n weddingcakeback.TierReadable) { s.next = n }

// As a readable tier the source itself finds nothing (its batch is empty between bakings).
func (s *source) TryIndexOfHash([]byte) (weddingcakeback.GlobalPiType, bool, error) {
	return weddingcakeback.GlobalPiNoMatch, false, nil
}
func (s *source) TryGetHashAtIndex(weddingcakeback.GlobalPiType, []byte) (bool, error) {
	return false, nil
}
func (s *source) GetNextTier() weddingcakeback.TierReadable { return s.next }
func (s *source) CloseThis() error                          { return nil }
func (s *source) CloseAll() error {
	if s.next != nil {
		return s.next.CloseAll()
	}
	return nil
}

// forests bakes small batches, with quotas small enough that tiers are baked into the tiers below.
func forests(name string, k int, kind string, quota [4]byte, bakings int, maxBatch int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("forests/%s/%s/%d", name, kind, k), Run: func(t *kit.T) {
		r := t.R
		reassurance := byte([]int{0, 1, 2, 4, 8, 16, 31, 32}[r.Intn(8)])
		cfg := weddingcakeback.NewCakeConfig(32, reassurance)
		for i := range quota {
			cfg.TierBelowConfigs[i].MaxDonutForests = quota[i]
			cfg.TierBelowConfigs[i].NodeFormatSpecsPerLevel = byte(5 + r.Intn(12))
		}
		dir := t.Dir()
		src := &source{cfg: cfg}
		m := newModel()
		t.Sample("reassurance=%d quota=%v bakings=%d maxBatch=%d", reassurance, quota, bakings, maxBatch)
		for b := 0; b < bakings; b++ {
			n := 1 + r.Intn(maxBatch)
			switch r.Intn(6) {
			case 0:
				n = 1
			case 1:
				n = maxBatch
			}
			bk := kind
			if r.Intn(5) == 0 {
				bk = kinds[r.Intn(len(kinds))]
			}
			for i := 0; i < n; i++ {
				h := m.fresh(r, bk)
				m.add(h)
				src.batch = append(src.batch, h)
			}
			before := src.emptyd
			if msg := kit.Panics(func() {
				t.NoErr(weddingcakeback.NewDonutForestWrite(src, cfg).Write(dir), "baking")
			}); msg != "" {
				t.Fatalf("baking-panics", "baking %d of %d hashes (%s): %s", b, n, bk, msg)
			}
			if src.emptyd != before+1 || src.first != len(m.list) {
				t.Fatalf("source-not-emptied", "after baking %d the tier baked was emptied %d times", b, src.emptyd-before)
			}
			t.Count("bakings", 1)
			t.Distinct(name, kind, k, b, n)
			deepest := deepestTier(dir)
			t.CountMax("deepest_tier", int64(deepest))
			t.CountMax("levels_in_a_tier", int64(levelFiles(dir)))
			lookup := func(c cake, where string) {
				if msg := kit.Panics(func() {
					if b == bakings-1 || len(m.list) < 600 || r.Intn(6) == 0 {
						verifyAll(t, c, m, r, bk, where)
					} else {
						verifySome(t, c, m, r, bk, 60, where)
					}
				}); msg != "" {
					t.Fatalf("lookup-panics", "%s: %s", where, msg)
				}
			}
			lookup(chain{src}, fmt.Sprintf("after baking %d (tiers to %d)", b, deepest))
			if b == bakings-1 || r.Intn(4) == 0 {
				// Opened afresh, under an empty top tier which goes on from here
				creator := weddingcakeback.NewTierTopCreator(dir, cfg)
				t.NoErr(creator.Create(weddingcakeback.GlobalPiType(len(m.list))), "Create")
				var top *weddingcakeback.TierTop
				var err error
				if r.Intn(2) == 0 {
					top, err = creator.OpenReadOnly()
				} else {
					top, err = creator.Open()
				}
				t.NoErr(err, "Open")
				lookup(chain{top}, fmt.Sprintf("reopened after baking %d (tiers to %d)", b, deepest))
				t.NoErr(top.CloseAll(), "CloseAll")
				t.Count("reopened", 1)
			}
		}
		t.NoErr(src.CloseAll(), "CloseAll")
	}}
}

func deepestTier(dir string) int {
	d := -1
	for i := 0; i < 4; i++ {
		if _, err := os.Stat(filepath.Join(dir, fmt.Sprintf("Tier%d", i), "Hashes.hsh")); err == nil {
			d = i
		}
	}
	return d
}

func levelFiles(dir string) int {
	most := 0
	for i := 0; i < 4; i++ {
		l, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("Tier%d", i), "Level*"))
		if len(l) > most {
			most = len(l)
		}
	}
	return most
}

// ---- the whole cake, with its 65535 hashes on top ----

func whole(k int, kind string, n int, quota [4]byte, reassurance byte) kit.Case {
	return kit.Case{Name: fmt.Sprintf("whole/%s/%d-%v/%d", kind, n, quota, k), Run: func(t *kit.T) {
		r := t.R
		cfg := weddingcakeback.NewCakeConfig(32, reassurance)
		for i := range quota {
			cfg.TierBelowConfigs[i].MaxDonutForests = quota[i]
		}
		dir := t.Dir()
		creator := weddingcakeback.NewTierTopCreator(dir, cfg)
		t.NoErr(creator.Create(0), "Create")
		top, err := creator.Open()
		t.NoErr(err, "Open")
		m := newModel()
		t.Sample("kind=%s n=%d quota=%v reassurance=%d", kind, n, quota, reassurance)
		buf := make([]byte, 32) // used again for every hash
		for i := 0; i < n; i++ {
			h := m.fresh(r, kind)
			copy(buf, h[:])
			var pi weddingcakeback.GlobalPiType
			if msg := kit.Panics(func() { pi, err = top.AppendHash(buf) }); msg != "" {
				t.Fatalf("append-panics", "appending hash %d: %s", i, msg)
			}
			t.NoErr(err, "AppendHash")
			if int(pi) != i {
				t.Fatalf("append-position", "hash %d was given position %d", i, pi)
			}
			m.add(h)
			look := (i+1)%65535 == 0 || i == n-1 || r.Intn(30000) == 0
			reopen := (i+1)%65535 == 0 && r.Intn(3) == 0 || r.Intn(60000) == 0 || i == n-1
			if reopen {
				t.NoErr(top.Sync(), "Sync")
				t.NoErr(top.CloseAll(), "CloseAll")
				if r.Intn(2) == 0 || i == n-1 {
					ro, err := creator.OpenReadOnly()
					t.NoErr(err, "OpenReadOnly")
					guard(t, "read only", func() { verifySome(t, chain{ro}, m, r, kind, 150, fmt.Sprintf("read only at %d", i+1)) })
					t.NoErr(ro.CloseAll(), "CloseAll")
				}
				top, err = creator.Open()
				t.NoErr(err, "Open")
				t.Count("reopened", 1)
				look = true
			}
			if look {
				t.Distinct("whole", kind, quota, n, i)
				t.CountMax("deepest_tier", int64(deepestTier(dir)))
				guard(t, "lookup", func() { verifySome(t, chain{top}, m, r, kind, 250, fmt.Sprintf("at %d", i+1)) })
			}
		}
		t.Count("whole_bakings", int64(n/65535))
		guard(t, "lookup", func() {
			for i := 0; i < n; i += 1 + r.Intn(8) {
				verifyAt(t, chain{top}, m, i, "at the end")
				t.Count("positions_verified", 1)
			}
		})
		t.NoErr(top.CloseAll(), "CloseAll")
	}}
}

func guard(t *kit.T, what string, f func()) {
	if msg := kit.Panics(f); msg != "" {
		t.Fatalf(what+"-panics", "%s", msg)
	}
}

// front drives the cake as its users do.
func front(k int, kind string, n int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("front/%s/%d/%d", kind, n, k), Run: func(t *kit.T) {
		r := t.R
		dir := t.Dir()
		cc := weddingcakefront.NewCakeCreator(dir, byte(r.Intn(9)))
		if cc.HashStoreExists() {
			t.Fatalf("exists-early", "a cake exists before it is created")
		}
		t.NoErr(cc.CreateHashStore(), "CreateHashStore")
		if !cc.HashStoreExists() {
			t.Fatalf("not-there", "a created cake does not exist")
		}
		c, err := cc.OpenHashStore()
		t.NoErr(err, "OpenHashStore")
		m := newModel()
		var h hash
		for i := 0; i < n; i++ {
			h = m.fresh(r, kind)
			pi, err := c.AppendHash(&h)
			t.NoErr(err, "AppendHash")
			if pi != int64(i) {
				t.Fatalf("append-position", "hash %d was given position %d", i, pi)
			}
			m.add(h)
			if (i+1)%65535 == 0 || i == n-1 || r.Intn(40000) == 0 {
				t.NoErr(c.Sync(), "Sync")
				guard(t, "lookup", func() { verifySome(t, c, m, r, kind, 150, fmt.Sprintf("front at %d", i+1)) })
				t.Distinct("front", kind, n, i)
			}
			if r.Intn(70000) == 0 || i == n-1 {
				t.NoErr(c.Close(), "Close")
				ro, err := cc.OpenHashStoreReadOnly()
				t.NoErr(err, "OpenHashStoreReadOnly")
				guard(t, "read-only", func() {
					for q := 0; q < 300; q++ {
						verifyAt(t, rocake{ro}, m, r.Intn(len(m.list)), "front read only")
					}
					verifyAbsent(t, rocake{ro}, m, r, kind, 60, "front read only")
				})
				t.NoErr(ro.Close(), "Close")
				if c, err = cc.OpenHashStore(); err != nil {
					t.Fatalf("reopen", "%v", err)
				}
				t.Count("reopened", 1)
			}
		}
		t.NoErr(c.Close(), "Close")
	}}
}

type rocake struct {
	r weddingcakefront.HashReader[*hash]
}

func (c rocake) IndexOfHash(h *hash) (int64, error)    { return c.r.IndexOfHash(h) }
func (c rocake) GetHashAtIndex(i int64, h *hash) error { return c.r.GetHashAtIndex(i, h) }

// ---- single trees ----

func trees(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("trees/%d", k), Run: func(t *kit.T) {
		r := t.R
		for round := 0; round < 25; round++ {
			length := []int{1, 2, 3, 4, 8, 20, 31, 32, 33, 63, 64}[r.Intn(11)]
			prefix := 0
			if r.Intn(2) == 0 {
				prefix = r.Intn(min(length, 4))
			}
			reass := r.Intn(length + 1)
			n := []int{0, 1, 2, 3, 5, 40, 250, 700}[r.Intn(8)]
			vals := []int{2, 3, 256}[r.Intn(3)]
			seen := map[string]int{}
			var in []weddingcakeback.SingleTreeHash
			pre := make([]byte, prefix)
			r.Read(pre)
			for try := 0; len(in) < n && try < 4*n; try++ {
				h := make([]byte, length)
				for i := range h {
					h[i] = byte(r.Intn(vals))
				}
				if r.Intn(4) == 0 && len(in) > 0 {
					copy(h, in[r.Intn(len(in))].Hash)
					h[prefix+r.Intn(length-prefix)] ^= 1 << r.Intn(8)
				}
				copy(h, pre)
				if _, dup := seen[string(h)]; dup {
					continue
				}
				pi := uint64(len(in) + 1)
				if r.Intn(3) == 0 {
					pi += uint64(r.Intn(1000)) << 32
				}
				seen[string(h)] = len(in)
				in = append(in, weddingcakeback.SingleTreeHash{Hash: h, PresentationIndex: weddingcakeback.SingleTreePiType(pi)})
			}
			given := make([][]byte, len(in))
			for i := range in {
				given[i] = append([]byte(nil), in[i].Hash...)
			}
			var tree *weddingcakeback.SingleTree
			guard(t, "tree", func() {
				tree = weddingcakeback.GenerateSingleTree(in, byte(prefix), byte(length), byte(reass))
			})
			desc := fmt.Sprintf("tree of %d hashes of %d bytes, prefix %d, reassurance %d", len(in), length, prefix, reass)
			for i := range in {
				if !bytes.Equal(in[i].Hash, given[i]) {
					t.Fatalf("input-changed", "%s: building the tree changed the hashes given", desc)
				}
				if got := tree.LookupHash(given[i]); got != in[i].PresentationIndex {
					t.Fatalf("tree-lookup", "%s: hash %x has index %d, looked up %d", desc, given[i], in[i].PresentationIndex, got)
				}
				t.Evals(1)
			}
			if tree.CountLeaves() != len(in) {
				t.Fatalf("tree-leaves", "%s has %d leaves", desc, tree.CountLeaves())
			}
			for q := 0; q < 60; q++ {
				h := make([]byte, length)
				if len(in) > 0 && q%2 == 0 {
					copy(h, given[r.Intn(len(in))])
					h[r.Intn(length)] ^= 1 << r.Intn(8)
				} else {
					r.Read(h)
				}
				if _, in := seen[string(h)]; in {
					continue
				}
				if got := tree.LookupHash(h); got != weddingcakeback.SingleTreeNoMatch {
					t.Fatalf("tree-absent", "%s: absent hash %x looks up %d", desc, h, got)
				}
				t.Evals(1)
			}
			t.Distinct("tree", len(in), length, prefix, reass, vals)
			t.Count("trees", 1)
		}
	}}
}

// ids checks that the numbers of nodes and hashes survive their packed formats.
func ids() kit.Case {
	return kit.Case{Name: "ids", Run: func(t *kit.T) {
		type packed struct {
			bits int
			c    weddingcakeback.NByteIdConfig[weddingcakeback.HashIndexIdType]
		}
		for _, p := range []packed{{16, weddingcakeback.ID16[weddingcakeback.HashIndexIdType]{}}, {24, weddingcakeback.ID24[weddingcakeback.HashIndexIdType]{}},
			{32, weddingcakeback.ID32[weddingcakeback.HashIndexIdType]{}}, {40, weddingcakeback.ID40[weddingcakeback.HashIndexIdType]{}}} {
			if p.c.StorageBytes()*8 != p.bits {
				t.Fatalf("id-size", "ID%d is stored in %d bytes", p.bits, p.c.StorageBytes())
			}
			var vs []uint64
			for b := 0; b <= 40; b++ {
				vs = append(vs, 1<<b, 1<<b-1, 1<<b+1)
			}
			for q := 0; q < 2000; q++ {
				vs = append(vs, t.R.Uint64()>>(24+t.R.Intn(40)))
			}
			for _, v := range vs {
				var b [16]byte
				for i := range b {
					b[i] = 0xC3
				}
				msg := kit.Panics(func() { p.c.WriteID(b[4:4+p.bits/8], weddingcakeback.HashIndexIdType(v)) })
				if v>>p.bits != 0 {
					if msg == "" {
						t.Fatalf("id-too-big", "ID%d silently took the number %d", p.bits, v)
					}
				} else if msg != "" {
					t.Fatalf("id-refused", "ID%d refused the number %d: %s", p.bits, v, msg)
				} else if got := uint64(p.c.ReadID(b[4 : 4+p.bits/8])); got != v {
					t.Fatalf("id-changed", "ID%d: wrote %d, read %d", p.bits, v, got)
				} else if binary.LittleEndian.Uint32(b[:]) != 0xC3C3C3C3 || b[4+p.bits/8] != 0xC3 {
					t.Fatalf("id-outside", "ID%d wrote outside its bytes", p.bits)
				}
				t.Evals(1)
			}
		}
		t.Distinct("ids")
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:          "C19",
		Rule:        "A case is a seeded history of appends and bakings of a real cake (or of its forest writer behind a small source tier), with lookups of positions, hashes and absent hashes after each baking and reopening, against an in-memory list; distinct_nontrivial counts distinct (set-up, baking) pairs and tree shapes looked up.",
		MinEvals:    100000,
		Assumptions: []string{"the hashes appended are distinct: the trees of a cake document that repeats are filtered out before", "a cake is used by one goroutine at a time", "hashes of 32 bytes, the only length the tiers take"},
		Cases: func(tier string, seed int64) []kit.Case {
			thorough := tier == "thorough"
			reps, big := 3, 1
			if thorough {
				reps, big = 40, 4
			}
			var cs []kit.Case
			for k := 0; k < big; k++ {
				cs = append(cs,
					whole(k, "uniform", 65535*4+2000+k*65535, [4]byte{2, 2, 255, 255}, byte(2+k)),
					whole(k, "uniform", 65535*5+500, [4]byte{5, 255, 255, 255}, byte(k)),
					whole(k, "prefix", 65535*2+300, [4]byte{1, 3, 255, 255}, 4),
					whole(k, "fewbytes", 65535*3+100, [4]byte{3, 2, 255, 255}, 1),
					whole(k, "uniform", 65535*3+70, [4]byte{255, 255, 255, 255}, 8),
					whole(k, "zeroheavy", 65535+500, [4]byte{2, 2, 255, 255}, 0),
					front(k, "uniform", 65535*3+1000),
					front(k, "prefix", 65535+30),
				)
			}
			for k := 0; k < reps; k++ {
				cs = append(cs, forests("tier2", k, kinds[k%len(kinds)], [4]byte{2, 2, 255, 255}, 5+k%4, 900))
			}
			for k := 0; k < reps; k++ {
				for _, kind := range kinds {
					cs = append(cs, forests("tier0", k, kind, [4]byte{255, 255, 255, 255}, 12, 150))
					cs = append(cs, forests("tier1", k, kind, [4]byte{3, 255, 255, 255}, 11, 400))
					cs = append(cs, forests("tier1-each", k, kind, [4]byte{1, 255, 255, 255}, 6, 60))
				}
			}
			for k := 0; k < reps*10; k++ {
				cs = append(cs, trees(k))
			}
			return append(cs, ids())
		},
	})
}
