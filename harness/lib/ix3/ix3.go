// Package ix3 has the workloads and the oracle shared by the checks of the multi-pass and adaptive-pass hash index.
package ix3

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	ih3 "github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"verifharness/kit"
)

// Shape is a choice of parameters for an index.
type Shape struct {
	Bits, Estimate int64
	Digits         int
	Bins, Start    int64
	SortBytes      int64
}

func (s Shape) Params() *ih3.HashIndexingParams {
	return ih3.NewHashStoreParams(s.Bits, s.Estimate, s.Digits, s.Bins, s.Start, s.SortBytes)
}
func (s Shape) EntryBytes() int64 { return 24 + s.SortBytes + (s.Bits-1)/8 + 1 }
func (s Shape) String() string {
	return fmt.Sprintf("bits=%d est=%d digits=%d bins=%d start=%d sortbytes=%d", s.Bits, s.Estimate, s.Digits, s.Bins, s.Start, s.SortBytes)
}

// Width is how many low 64-bit values share a bin (an independent statement of the partition: bins are equal ranges).
func (s Shape) width() uint64 {
	half := uint64(s.Bins) / 2
	return ((uint64(1) << 63) + half - 1) / half
}

// RandShape picks parameters the calculator accepts. maxN is how many hashes must fit.
func RandShape(r *rand.Rand, maxN int) Shape {
	s := Shape{Digits: 1 + r.Intn(4)}
	s.Bits = 8 + int64(r.Intn(33))
	for s.Bits < 40 && int64(1)<<uint(s.Bits) < int64(maxN)+4 {
		s.Bits++
	}
	switch r.Intn(5) {
	case 0:
		s.Bins = 2
	case 1:
		s.Bins = 2 * int64(1+r.Intn(40))
	case 2:
		s.Bins = int64(2) << uint(r.Intn(10))
	case 3:
		s.Bins = []int64{254, 256, 258, 6, 10, 100, 1000, 510, 514}[r.Intn(9)]
	case 4:
		s.Bins = 2 * int64(1+r.Intn(600))
	}
	s.Start = int64(1 + r.Intn(8))
	if r.Intn(4) == 0 {
		s.Start = int64(1 + r.Intn(60))
	}
	s.SortBytes = 8
	// the least that fits, sometimes
	if r.Intn(2) == 0 {
		w := s.width() - 1
		n := int64(0)
		for w > 0 {
			w >>= 8
			n++
		}
		s.SortBytes = n
	}
	s.Estimate = int64(maxN)
	return s
}

// Gen makes hashes that collide in every part the index looks at.
type Gen struct {
	R       *rand.Rand
	S       Shape
	Dups    bool
	Cluster int // 0: spread, 1: few bins, 2: one bin, 3: few sort numbers
	Pool    []ih.Sha256
	bins    []uint64
}

func NewGen(r *rand.Rand, s Shape) *Gen {
	g := &Gen{R: r, S: s, Dups: r.Intn(2) == 0, Cluster: r.Intn(4)}
	n := 1
	if g.Cluster != 2 {
		n = 1 + r.Intn(4)
	}
	for i := 0; i < n; i++ {
		g.bins = append(g.bins, uint64(r.Int63n(s.Bins)))
	}
	return g
}

func (g *Gen) bin(b uint64, sn uint64) uint64 {
	w := g.S.width()
	if sn >= w {
		sn = w - 1
	}
	v := b*w + sn
	if v < b*w || (b > 0 && v/w != b) { // beyond the last 64 bit value
		v = ^uint64(0)
	}
	return v
}

func (g *Gen) Next() ih.Sha256 {
	h := g.next()
	g.Pool = append(g.Pool, h)
	return h
}

func (g *Gen) next() ih.Sha256 {
	r := g.R
	var h ih.Sha256
	if g.Dups && len(g.Pool) > 0 && r.Intn(7) == 0 {
		return g.Pool[r.Intn(len(g.Pool))]
	}
	r.Read(h[:])
	w := g.S.width()
	var b uint64
	if g.Cluster == 0 {
		b = uint64(r.Int63n(g.S.Bins))
	} else {
		b = g.bins[r.Intn(len(g.bins))]
	}
	var sn uint64
	switch r.Intn(8) {
	case 0:
		sn = 0
	case 1:
		sn = w - 1
	case 2:
		sn = uint64(1) << uint(r.Intn(64)) % w // strongly bent distribution, bad for interpolation
	case 3:
		sn = w - 1 - uint64(r.Intn(5))
	case 4:
		sn = uint64(r.Intn(20))
	default:
		sn = r.Uint64() % w
	}
	if g.Cluster == 3 && r.Intn(3) > 0 {
		sn = uint64(r.Intn(3)) * (w / 3)
	}
	switch r.Intn(14) {
	case 0: // any 64 bits
	case 1:
		binary.LittleEndian.PutUint64(h[:8], ^uint64(0)-uint64(r.Intn(3)))
	case 2:
		binary.LittleEndian.PutUint64(h[:8], uint64(r.Intn(3)))
	case 3:
		// one byte away from an existing one
		if len(g.Pool) > 0 {
			h = g.Pool[r.Intn(len(g.Pool))]
			h[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		}
	case 4:
		// the same last 24 bytes as an existing one, same bin or another
		if len(g.Pool) > 0 {
			p := g.Pool[r.Intn(len(g.Pool))]
			copy(h[8:], p[8:])
			binary.LittleEndian.PutUint64(h[:8], g.bin(b, sn))
		}
	case 5:
		// the same first 8 bytes
		if len(g.Pool) > 0 {
			p := g.Pool[r.Intn(len(g.Pool))]
			copy(h[:8], p[:8])
		}
	case 6:
		binary.LittleEndian.PutUint64(h[:8], g.bin(b, sn))
		for i := 8; i < 32; i++ {
			h[i] = byte(r.Intn(2) * 255)
		}
		if r.Intn(2) == 0 {
			for i := 8; i < 31; i++ {
				h[i] = 0
			}
			h[31] = 1
		}
	default:
		binary.LittleEndian.PutUint64(h[:8], g.bin(b, sn))
	}
	zero := true
	for _, x := range h[8:] {
		if x != 0 {
			zero = false
		}
	}
	if zero { // see the known finding "zero-entry", which has a case of its own
		h[31] = 1
	}
	return h
}

// Near gives a hash that is probably not in the pool but close to it.
func (g *Gen) Near() ih.Sha256 { return g.next() }

// Model is the list the index should behave as.
type Model struct {
	List  []ih.Sha256
	First map[ih.Sha256]int64
}

func NewModel() *Model { return &Model{First: map[ih.Sha256]int64{}} }
func (m *Model) Add(h ih.Sha256) {
	if _, ok := m.First[h]; !ok {
		m.First[h] = int64(len(m.List))
	}
	m.List = append(m.List, h)
}
func (m *Model) Bytes() []byte {
	var b []byte
	for _, h := range m.List {
		b = append(b, h[:]...)
	}
	return b
}

func CheckOne(t *kit.T, what string, s ih.HashReader, m *Model, h ih.Sha256) {
	in := h
	got, err := s.IndexOfHash(&in)
	want, ok := m.First[h]
	if !ok {
		want = -1
		t.Count("lookups_absent", 1)
	} else {
		t.Count("lookups_present", 1)
	}
	t.Evals(1)
	if err != nil || got != want {
		t.Fatalf("index-of-hash", "%s: index of %x is %d (%v), want %d; %d hashes stored", what, h, got, err, want, len(m.List))
	}
	if in != h {
		t.Fatalf("input-changed", "%s: looking up %x changed it", what, h)
	}
}

// CheckAt: a position reads back its hash. A position holding a repeat of an earlier hash may read as zeroes
// (the index only keeps the first position), unless full is set.
func CheckAt(t *kit.T, what string, s ih.HashReader, m *Model, i int64, full bool) {
	h := ih.Sha256{1, 2, 3, 4}
	h[31] = byte(i)
	err := s.GetHashAtIndex(i, &h)
	t.Evals(1)
	if i >= 0 && i < int64(len(m.List)) {
		if err != nil {
			t.Fatalf("hash-at-index", "%s: hash at %d of %d: %v", what, i, len(m.List), err)
		}
		if h == m.List[i] {
			return
		}
		if m.First[m.List[i]] != i && !full && h == (ih.Sha256{}) {
			t.Count("repeats_read_as_zeroes", 1)
			return
		}
		t.Fatalf("hash-at-index", "%s: hash at %d of %d is %x, want %x", what, i, len(m.List), h, m.List[i])
	} else if err == nil {
		t.Fatalf("hash-out-of-range", "%s: reading hash %d of %d gave %x without an error", what, i, len(m.List), h)
	}
}

func CheckCount(t *kit.T, what string, s ih.HashReader, m *Model) {
	n, err := s.CountHashes()
	if err != nil || n != int64(len(m.List)) {
		t.Fatalf("count", "%s: count is %d (%v), want %d", what, n, err, len(m.List))
	}
}

func CheckAll(t *kit.T, what string, s ih.HashReader, m *Model, g *Gen, appended bool) {
	CheckCount(t, what, s, m)
	for i, h := range m.List {
		CheckOne(t, what, s, m, h)
		// appending keeps an entry for a repeated hash too, but that is no promise
		CheckAt(t, what, s, m, int64(i), false)
	}
	for i := 0; i < 60; i++ {
		CheckOne(t, what, s, m, g.Near())
	}
	n := int64(len(m.List))
	for _, i := range []int64{-1, n, n + 1, n + 1000} {
		CheckAt(t, what, s, m, i, false)
	}
}

// CountOverflows says how many overflow files an index has.
func CountOverflows(dir string) int64 {
	n := int64(0)
	filepath.Walk(filepath.Join(dir, "BinOverflows"), func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			n++
		}
		return nil
	})
	return n
}

// Index says how to index.
type Index struct {
	Adaptive bool
	Gb       int
	Threads  int
	Passes   int64 // expected number of passes (multi-pass)
}

func (x Index) String() string {
	k := "multipass"
	if x.Adaptive {
		k = "adaptive"
	}
	return fmt.Sprintf("%s gb=%d threads=%d", k, x.Gb, x.Threads)
}

// Build indexes dir/name/Hashes.hsh. The bins array may be shared between stores.
func Build(dir, name string, s Shape, x Index, ba *ih3.BinsArray) (ih.HashStoreCreator, *ih3.MultipassPreloader, error) {
	kit.Must(os.MkdirAll(filepath.Join(dir, name), 0755))
	if x.Adaptive {
		c, p, err := ih3.NewHashStoreCreatorAndPreloaderAdaptive(dir, name, s.Params(), x.Gb)
		if err != nil {
			return nil, nil, err
		}
		return c, nil, p.IndexTheHashes(x.Threads)
	}
	if ba == nil {
		ba = ih3.NewBinsArray(s.Start, s.EntryBytes(), 1)
	}
	c, p, err := ih3.NewHashStoreCreatorAndPreloader(dir, name, s.Params(), x.Gb, ba)
	if err != nil {
		return nil, nil, err
	}
	return c, p, p.IndexTheHashes(x.Threads)
}

// ManyPasses adjusts the estimate so that the multi-pass indexer with 1 GB makes several passes.
func ManyPasses(r *rand.Rand, s Shape) Shape {
	perPass := 1 + r.Int63n(s.Bins)
	if s.Bins > 100 && perPass < s.Bins/20 {
		perPass = s.Bins / 20 // at most 20 passes
	}
	expected := int64(1<<30) / (s.EntryBytes() * perPass)
	s.Estimate = expected * s.Bins
	return s
}

func RandIndex(r *rand.Rand) Index {
	return Index{Adaptive: r.Intn(2) == 0, Gb: 1, Threads: []int{1, 2, 3, 4, 7, 8, 16}[r.Intn(7)]}
}

func WriteHashes(dir, name string, m *Model) {
	kit.Must(os.MkdirAll(filepath.Join(dir, name), 0755))
	kit.Must(os.WriteFile(filepath.Join(dir, name, "Hashes.hsh"), m.Bytes(), 0644))
}
