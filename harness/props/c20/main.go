// C20: shallow trees, chunks, chunk files and tier zero of the older cake never miss a stored hash.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"unsafe"

	"github.com/KitchenMishap/pudding-shed/weddingcake"
	"verifharness/kit"
)

// ---- hash sets: all give distinct hashes of L bytes ----

var kinds = []string{"uniform", "prefix", "counter", "twovalues", "tail", "unary", "zeroheavy", "grid", "fanout"}

func draw(r *rand.Rand, kind string, L, i int) []byte {
	h := make([]byte, L)
	switch kind {
	case "uniform":
		r.Read(h)
	case "prefix": // few values in the first bytes
		r.Read(h)
		for k := 0; k < L && k < 3; k++ {
			h[k] = byte(r.Intn(3)) * 127
		}
	case "counter": // a counter in bytes that are spread out, the rest constant
		for k := range h {
			h[k] = 0x5A
		}
		v := r.Uint32()
		for k := 0; k < 4 && k < L; k++ {
			h[k*(L-1)/3%L] = byte(v >> (8 * k))
		}
	case "twovalues": // two values per byte: deep trees of tiny nodes
		v := r.Uint64()
		for k := range h {
			h[k] = byte(v >> (k % 64) & 1)
		}
	case "tail": // groups which differ in the last bytes only
		rand.New(rand.NewSource(int64(r.Intn(30)))).Read(h)
		h[L-1] = byte(r.Intn(256))
		if L > 1 {
			h[L-2] = byte(r.Intn(8))
		}
	case "unary": // chains: each hash leaves the others at one byte
		n := r.Intn(L + 1)
		for k := 0; k < n; k++ {
			h[k] = 1
		}
		if n < L && r.Intn(2) == 0 {
			h[n] = byte(r.Intn(256))
		}
	case "zeroheavy":
		for k := 0; k <= r.Intn(4); k++ {
			h[r.Intn(L)] = byte(r.Intn(256))
		}
	case "grid": // first two bytes cover everything
		h[0] = byte(i)
		if L > 1 {
			h[1] = byte(i >> 8)
		}
		if L > 2 {
			h[2] = byte(i >> 16)
		}
	case "fanout": // nodes of every slot count: byte 1 has (byte 0)+1 values
		a := r.Intn(256)
		h[0] = byte(a)
		if L > 1 {
			h[1] = byte(255 - r.Intn(a+1))
		}
		if L > 2 {
			h[2] = byte(r.Intn(3))
		}
	}
	return h
}

type set struct {
	hashes [][]byte
	pos    map[string]int
	L      int
}

func (s *set) add(h []byte) bool {
	if _, ok := s.pos[string(h)]; ok {
		return false
	}
	s.pos[string(h)] = len(s.hashes)
	s.hashes = append(s.hashes, h)
	return true
}

func makeSet(r *rand.Rand, kind string, L, n int) *set {
	s := &set{pos: map[string]int{}, L: L}
	if kind == "chain" { // the deepest tree there is: L+1 hashes
		s.add(make([]byte, L))
		for _, k := range r.Perm(L) {
			h := make([]byte, L)
			h[k] = byte(1 + r.Intn(255))
			s.add(h)
		}
		return s
	}
	for miss := 0; len(s.hashes) < n && miss < 50*n+1000; {
		if !s.add(draw(r, kind, L, len(s.hashes)+miss)) {
			miss++
		}
	}
	return s
}

// neighbours: absent hashes close to stored ones.
func (s *set) absent(r *rand.Rand, n int) [][]byte {
	var out [][]byte
	for try := 0; len(out) < n && try < 20*n; try++ {
		h := make([]byte, s.L)
		if len(s.hashes) > 0 && r.Intn(5) != 0 {
			copy(h, s.hashes[r.Intn(len(s.hashes))])
			for k := 0; k <= r.Intn(3); k++ {
				switch r.Intn(3) {
				case 0:
					h[r.Intn(s.L)] ^= byte(1 << r.Intn(8))
				case 1:
					h[r.Intn(s.L)] = byte(r.Intn(256))
				case 2:
					h[r.Intn(s.L)] = 0
				}
			}
		} else {
			r.Read(h)
		}
		if _, ok := s.pos[string(h)]; !ok {
			out = append(out, h)
		}
	}
	return out
}

func (s *set) input(first int64) []weddingcake.ShallowTreeHash {
	in := make([]weddingcake.ShallowTreeHash, len(s.hashes))
	for i, h := range s.hashes {
		in[i] = weddingcake.ShallowTreeHash{Hash: h, PresentationIndex: first + int64(i)}
	}
	return in
}

func agree(a, b []byte) int {
	n := 0
	for i := range a {
		if a[i] == b[i] {
			n++
		}
	}
	return n
}

// field gives the first field of type T in the struct p points at, exported or not, or nil when there is none.
func field[T any](p any) *T {
	v := reflect.ValueOf(p).Elem()
	want := reflect.TypeOf((*T)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == want {
			return (*T)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	return nil
}

type ids struct {
	name string
	node weddingcake.NByteIdConfig[weddingcake.NodeIdType]
	hash weddingcake.NByteIdConfig[weddingcake.HashIndexIdType]
	max  int
}

var idSizes = []ids{
	{"16", weddingcake.ID16[weddingcake.NodeIdType]{}, weddingcake.ID16[weddingcake.HashIndexIdType]{}, 65535},
	{"24", weddingcake.ID24[weddingcake.NodeIdType]{}, weddingcake.ID24[weddingcake.HashIndexIdType]{}, 1 << 23},
	{"32", weddingcake.ID32[weddingcake.NodeIdType]{}, weddingcake.ID32[weddingcake.HashIndexIdType]{}, 1 << 30},
	{"16/32", weddingcake.ID16[weddingcake.NodeIdType]{}, weddingcake.ID32[weddingcake.HashIndexIdType]{}, 65535},
	{"24/16", weddingcake.ID24[weddingcake.NodeIdType]{}, weddingcake.ID16[weddingcake.HashIndexIdType]{}, 65535},
}

// asker is anything a hash is looked up in.
type asker struct {
	name string
	ask  func(h []byte) int64
}

// check holds every asker to the set: each stored hash at its number, absent ones alike in all and never wrongly exact.
func check(t *kit.T, r *rand.Rand, s *set, first int64, reassure int, what string, as []asker) {
	want := func(i int) int64 { return first + int64(i) }
	ask := func(a asker, h []byte) (ans int64, ok bool) {
		if p := kit.Panics(func() { ans = a.ask(h) }); p != "" {
			t.Failf("lookup-panics", "%s, %s: looking up %x panics: %s", what, a.name, h, p)
			return 0, false
		}
		return ans, true
	}
	for _, a := range as {
		bad := 0
		for i, h := range s.hashes {
			ans, ok := ask(a, h)
			if !ok {
				return
			}
			if ans != want(i) {
				t.Failf("stored-hash-missed", "%s, %s: stored hash %x is number %d but the lookup gives %d", what, a.name, h, want(i), ans)
				if bad++; bad > 3 {
					return
				}
			}
		}
		t.Evals(int64(len(s.hashes)))
		t.Count("stored/"+a.name, int64(len(s.hashes)))
	}
	for _, h := range s.absent(r, 200+len(s.hashes)/20) {
		var first0 int64
		for k, a := range as {
			ans, ok := ask(a, h)
			if !ok {
				return
			}
			if k == 0 {
				first0 = ans
			} else if ans != first0 {
				t.Failf("answers-differ", "%s: absent hash %x: %s says %d, %s says %d", what, h, as[0].name, first0, a.name, ans)
				return
			}
			if ans == -1 {
				t.Count("absent/no-match", 1)
				continue
			}
			i := ans - first
			if i < 0 || i >= int64(len(s.hashes)) {
				t.Failf("number-of-nothing", "%s, %s: absent hash %x gives number %d; the numbers are %d to %d", what, a.name, h, ans, first, first+int64(len(s.hashes))-1)
				return
			}
			t.Count("absent/candidate", 1)
			if n := agree(h, s.hashes[i]); n < reassure || reassure >= s.L {
				t.Failf("candidate-not-reassured", "%s, %s: absent hash %x gives %d, hash %x, agreeing in %d bytes though %d reassurance bytes are stored", what, a.name, h, ans, s.hashes[i], n, reassure)
				return
			}
		}
		t.Evals(int64(len(as)))
	}
}

func sameInput(t *kit.T, s *set, in []weddingcake.ShallowTreeHash, first int64, copyOf [][]byte, what string) {
	for i := range in {
		if in[i].PresentationIndex != first+int64(i) || !bytes.Equal(in[i].Hash, copyOf[i]) {
			t.Failf("input-changed", "%s: building changed the caller's hash %d", what, i)
			return
		}
	}
}

// oneSet builds tree, chunk and chunk file (which may hold earlier chunks) and checks them.
func oneSet(t *kit.T, r *rand.Rand, sets []*set, reassure, specs int, id ids, firsts []int64, what string) {
	dir := t.SubDir("chunks")
	kit.Must(os.WriteFile(filepath.Join(dir, "ChunksInfo.bin"), nil, 0644))
	write := weddingcake.NewChunkFilesWrite(dir)
	var mem []*weddingcake.Chunk
	for k, s := range sets {
		in := s.input(firsts[k])
		copyOf := make([][]byte, len(in))
		for i := range in {
			copyOf[i] = bytes.Clone(in[i].Hash)
		}
		var tree *weddingcake.ShallowTree
		prep := weddingcake.NewChunkPreparation(in, byte(s.L), byte(reassure), byte(specs), id.node, id.hash)
		if p := kit.Panics(func() {
			tree = weddingcake.GenerateShallowTree(in, byte(s.L), byte(reassure))
			prep.PrepareAndSerialize()
		}); p != "" {
			t.Failf("build-panics", "%s: building chunk %d of %d hashes panics: %s", what, k, len(in), p)
			return
		}
		sameInput(t, s, in, firsts[k], copyOf, what)
		chunk := field[weddingcake.Chunk](prep)
		if chunk == nil {
			t.Count("chunks-out-of-reach", 1)
			check(t, r, s, firsts[k], reassure, fmt.Sprintf("%s chunk %d", what, k), []asker{
				{"tree", func(h []byte) int64 { return tree.LookupHash(h) }},
			})
			continue
		}
		mem = append(mem, chunk)
		nodes := tree.CountNodes()
		t.CountMax("tree-nodes", int64(nodes))
		t.CountMax("tree-levels", int64(len(chunk.ChunkLevels)))
		t.Distinct(what, s.L, len(s.hashes), nodes, len(chunk.ChunkLevels))
		check(t, r, s, firsts[k], reassure, fmt.Sprintf("%s chunk %d", what, k), []asker{
			{"tree", func(h []byte) int64 { return tree.LookupHash(h) }},
			{"chunk", func(h []byte) int64 { return int64(chunk.LookupHash(h)) }},
		})
		if err := write.AppendChunk(chunk); err != nil {
			t.Failf("append-chunk", "%s: appending chunk %d: %v", what, k, err)
			return
		}
		t.Count("chunks-written", 1)
	}
	if len(mem) < len(sets) {
		return
	}
	read := weddingcake.NewChunkFilesRead(dir)
	for round := 0; round < 2; round++ {
		if p := kit.Panics(func() {
			if err := read.ReadAndMmap(mem[0].Config); err != nil {
				t.Failf("read-chunks", "%s: reading the chunk files: %v", what, err)
			}
		}); p != "" {
			t.Failf("read-panics", "%s: reading the chunk files panics: %s", what, p)
			return
		}
		held := field[[]weddingcake.Chunk](read)
		if held == nil {
			t.Count("chunk-files-out-of-reach", 1)
			return
		}
		got := *held
		if len(got) != len(sets) {
			t.Failf("chunk-count", "%s: %d chunks were written, %d are read", what, len(sets), len(got))
			return
		}
		for k, s := range sets {
			c := &got[k]
			if !reflect.DeepEqual(c.ChunkLevels, mem[k].ChunkLevels) && !(len(c.ChunkLevels) == 0 && len(mem[k].ChunkLevels) == 0) {
				t.Failf("chunk-bytes", "%s: chunk %d reads back different from the one written", what, k)
				return
			}
			m := mem[k]
			check(t, r, s, firsts[k], reassure, fmt.Sprintf("%s chunk file %d/%d", what, k, len(sets)), []asker{
				{"chunk", func(h []byte) int64 { return int64(m.LookupHash(h)) }},
				{"file", func(h []byte) int64 { return int64(c.LookupHash(h)) }},
			})
		}
		t.NoErr(read.UnMmapLevelFiles(), "unmapping")
		read = weddingcake.NewChunkFilesRead(dir)
	}
	kit.Must(os.RemoveAll(dir))
}

func reassureFor(r *rand.Rand, L int) int {
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return L
	}
	n := 1 + r.Intn(4)
	if n > L {
		n = L
	}
	return n
}

func trees(seed int64, kind string, rounds int) func(t *kit.T) {
	return func(t *kit.T) {
		r := kit.NewRand(seed, "c20-"+kind)
		lens := []int{1, 2, 3, 4, 8, 20, 31, 32, 33, 63, 64}
		for k := 0; k < rounds; k++ {
			L := lens[(k+r.Intn(2))%len(lens)]
			n := []int{0, 1, 2, 3, 5, 6, 40, 244, 245, 246, 256, 257, 700, 3000}[r.Intn(14)]
			id := idSizes[r.Intn(len(idSizes))]
			chunks := 1 + r.Intn(4)
			var sets []*set
			var firsts []int64
			at := int64(r.Intn(3)) * int64(r.Intn(1<<30))
			for c := 0; c < chunks; c++ {
				s := makeSet(r, kind, L, n)
				sets = append(sets, s)
				firsts = append(firsts, at)
				at += int64(len(s.hashes))
				n = 1 + r.Intn(600)
			}
			// mmap of a chunk without levels leaves nothing to map; the first chunk may be empty only if it is alone
			re := reassureFor(r, L)
			oneSet(t, r, sets, re, 5+r.Intn(20), id, firsts, fmt.Sprintf("%s round %d: %d-byte hashes, %d reassurance bytes, ids %s", kind, k, L, re, id.name))
		}
	}
}

func big(seed int64, kind string, n, L int, id ids) func(t *kit.T) {
	return func(t *kit.T) {
		r := kit.NewRand(seed, fmt.Sprint("c20-big", kind, n, L, id.name))
		s := makeSet(r, kind, L, n)
		oneSet(t, r, []*set{s}, 2, 10, id, []int64{int64(r.Intn(1 << 40))}, fmt.Sprintf("%d %s hashes of %d bytes, ids %s", n, kind, L, id.name))
	}
}

// tierZero: number by hash and hash by number, over appends, syncs, reopenings and read-only opening.
func tierZero(seed int64, rounds int) func(t *kit.T) {
	return func(t *kit.T) {
		r := kit.NewRand(seed, "c20-tier0")
		for k := 0; k < rounds; k++ {
			dir := t.SubDir("t0")
			cr := weddingcake.NewTierZeroCreator(dir)
			if cr.HashStoreExists() {
				t.Failf("exists-before", "a tier zero exists before it is made")
			}
			t.NoErr(cr.CreateHashStore(), "CreateHashStore")
			if !cr.HashStoreExists() {
				t.Failf("missing-after", "a tier zero does not exist after it is made")
			}
			kind := kinds[r.Intn(len(kinds))]
			s := &set{pos: map[string]int{}, L: 32}
			look := func(st weddingcake.HashReader[*weddingcake.Sha256], what string) {
				n, err := st.CountHashes()
				if err != nil || n != int64(len(s.hashes)) {
					t.Failf("tier0-count", "%s: counts %d hashes (%v), %d were appended", what, n, err, len(s.hashes))
				}
				for i := range s.hashes {
					if len(s.hashes) > 300 && r.Intn(len(s.hashes)) > 300 {
						continue
					}
					var in, h weddingcake.Sha256
					copy(in[:], s.hashes[i])
					got, err := st.IndexOfHash(&in)
					if err != nil || got != int64(i) {
						t.Failf("tier0-number", "%s: hash %x is number %d, got %d (%v)", what, s.hashes[i], i, got, err)
						return
					}
					if err := st.GetHashAtIndex(int64(i), &h); err != nil || !bytes.Equal(h[:], s.hashes[i]) {
						t.Failf("tier0-hash", "%s: number %d is hash %x, got %x (%v)", what, i, s.hashes[i], h, err)
						return
					}
					t.Evals(2)
				}
				for _, a := range s.absent(r, 20) {
					var in weddingcake.Sha256
					copy(in[:], a)
					if got, err := st.IndexOfHash(&in); err != nil || got != -1 {
						t.Failf("tier0-absent", "%s: hash %x was never appended, got %d (%v)", what, a, got, err)
					}
					t.Evals(1)
				}
				for _, i := range []int64{int64(len(s.hashes)), int64(len(s.hashes)) + 7, -1, 1 << 40, -1 << 40} {
					var h weddingcake.Sha256
					var err error
					if p := kit.Panics(func() { err = st.GetHashAtIndex(i, &h) }); p != "" {
						t.Failf("tier0-range-panics", "%s: asking for number %d of %d panics: %s", what, i, len(s.hashes), p)
					} else if err == nil {
						t.Failf("tier0-range", "%s: number %d of %d gives hash %x", what, i, len(s.hashes), h)
					}
					t.Evals(1)
				}
			}
			for session := 0; session < 2+r.Intn(3); session++ {
				st, err := cr.OpenHashStore()
				if err != nil {
					t.Failf("tier0-open", "opening: %v", err)
					return
				}
				look(st, "reopened")
				var buf weddingcake.Sha256
				for i, n := 0, []int{0, 1, 3, 300, 4000}[r.Intn(5)]; i < n; i++ {
					h := draw(r, kind, 32, r.Int())
					if _, ok := s.pos[string(h)]; ok {
						h = draw(r, "uniform", 32, i)
					}
					copy(buf[:], h)
					got, err := st.AppendHash(&buf)
					if err != nil || got != int64(len(s.hashes)) {
						t.Failf("tier0-append", "append %d is told number %d (%v)", len(s.hashes), got, err)
						return
					}
					s.add(h)
					if r.Intn(200) == 0 {
						t.NoErr(st.Sync(), "Sync")
					}
					t.Count("tier0-appends", 1)
				}
				buf = weddingcake.Sha256{} // the caller's variable is its own
				look(st, "while open")
				if r.Intn(2) == 0 {
					t.NoErr(st.Sync(), "Sync")
					ro, err := cr.OpenHashStoreReadOnly()
					if err != nil {
						t.Failf("tier0-open-ro", "opening read-only: %v", err)
						return
					}
					look(ro, "read-only after sync")
					t.NoErr(ro.Close(), "Close")
				}
				t.NoErr(st.Close(), "Close")
				t.Count("tier0-sessions", 1)
			}
			t.Distinct("tier0", kind, len(s.hashes))
			kit.Must(os.RemoveAll(dir))
		}
	}
}

func main() {
	kit.Main(kit.Prop{
		ID:    "C20",
		Level: "monitored over generated sets of hashes",
		Rule:  "an online monitor looks every stored hash up in the tree, the chunk, and the chunk file and compares with the position it was given; absent neighbours must be answered alike by all three and only with a hash that shares the reassurance bytes",
		Assumptions: []string{"hashes of a set are distinct, as the trees require",
			"numbers of a chunk follow each other and its first hash has the lowest"},
		MinEvals: 100000,
		Cases: func(tier string, seed int64) []kit.Case {
			var cs []kit.Case
			rounds, parts := 60, 5
			if tier == "thorough" {
				rounds, parts = 300, 16
			}
			for _, k := range append(append([]string{}, kinds...), "chain") {
				for p := 0; p < parts; p++ {
					cs = append(cs, kit.Case{Name: fmt.Sprintf("sets/%s/%d", k, p), Run: trees(seed*1000+int64(p), k, rounds)})
				}
			}
			for p := 0; p < parts; p++ {
				cs = append(cs, kit.Case{Name: fmt.Sprintf("tierzero/%d", p), Run: tierZero(seed*1000+int64(p), rounds/2)})
			}
			bigs := []struct {
				kind string
				n, L int
				id   int
			}{{"uniform", 65535, 32, 0}, {"uniform", 65535, 4, 0}, {"grid", 65535, 3, 3}, {"uniform", 65536, 20, 1}, {"fanout", 60000, 8, 1}, {"uniform", 70000, 32, 2}, {"tail", 50000, 32, 1}}
			if tier == "thorough" {
				for _, L := range []int{5, 16, 20, 48, 64} {
					bigs = append(bigs, struct {
						kind string
						n, L int
						id   int
					}{"uniform", 65535, L, 0})
				}
				bigs = append(bigs, struct {
					kind string
					n, L int
					id   int
				}{"uniform", 1000000, 32, 1}, struct {
					kind string
					n, L int
					id   int
				}{"grid", 300000, 4, 1})
			}
			for _, b := range bigs {
				cs = append(cs, kit.Case{Name: fmt.Sprintf("big/%s/%d/%d/%s", b.kind, b.n, b.L, idSizes[b.id].name), Run: big(seed, b.kind, b.n, b.L, idSizes[b.id])})
			}
			return cs
		},
	})
}
