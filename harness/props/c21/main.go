// C21: the fixed-node-size tree answers as the shallow tree it is made from, and both never miss a stored hash.
package main

import (
	"fmt"
	"math/bits"
	"math/rand"

	"github.com/KitchenMishap/pudding-shed/indexedhashestree"
	"verifharness/kit"
)

type hash = [32]byte

var kinds = []string{"uniform", "prefix", "counter", "twovalues", "tail", "unary", "zeroheavy", "grid", "fanout", "pairs", "repeats"}

func draw(r *rand.Rand, kind string, i int) hash {
	var h hash
	switch kind {
	case "uniform":
		r.Read(h[:])
	case "prefix":
		r.Read(h[:])
		h[0], h[1], h[2] = byte(r.Intn(3))*127, byte(r.Intn(2))*255, byte(r.Intn(4))
	case "counter":
		for k := range h {
			h[k] = 0x5A
		}
		v := r.Uint32()
		h[0], h[9], h[17], h[31] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
	case "twovalues":
		v := r.Uint32()
		for k := range h {
			h[k] = byte(v >> k & 1)
		}
	case "tail":
		rand.New(rand.NewSource(int64(r.Intn(40)))).Read(h[:])
		h[30], h[31] = byte(r.Intn(8)), byte(r.Intn(256))
	case "unary":
		n := r.Intn(33)
		for k := 0; k < n; k++ {
			h[k] = 1
		}
		if n < 32 && r.Intn(2) == 0 {
			h[n] = byte(r.Intn(256))
		}
	case "zeroheavy":
		for k := 0; k <= r.Intn(4); k++ {
			h[r.Intn(32)] = byte(r.Intn(256))
		}
	case "grid":
		h[0], h[1], h[2] = byte(i), byte(i>>8), byte(i>>16)
	case "fanout": // byte 7 has (byte 3)+1 values: nodes of all slot counts
		a := r.Intn(256)
		h[3], h[7], h[20] = byte(a), byte(255-r.Intn(a+1)), byte(r.Intn(3))
	case "pairs": // two hashes per cell, told apart by one byte
		r.Read(h[:2])
		h[2] = byte(r.Intn(2)) * byte(r.Intn(256))
	case "repeats": // many exact repeats
		rand.New(rand.NewSource(int64(r.Intn(50)))).Read(h[:])
	}
	return h
}

type set struct {
	list  []hash
	first map[hash]int
	times map[hash]int
}

func newSet() *set { return &set{first: map[hash]int{}, times: map[hash]int{}} }
func (s *set) add(h hash) {
	if s.times[h] == 0 {
		s.first[h] = len(s.list)
	}
	s.times[h]++
	s.list = append(s.list, h)
}

// agrees tells whether a and b are alike in the bytes of mask.
func agrees(a, b hash, mask uint32) bool {
	for k := 0; k < 32; k++ {
		if mask>>k&1 != 0 && a[k] != b[k] {
			return false
		}
	}
	return true
}

func (s *set) absent(r *rand.Rand, n int) []hash {
	var out []hash
	for try := 0; len(out) < n && try < 20*n; try++ {
		var h hash
		if len(s.list) > 0 && r.Intn(5) != 0 {
			h = s.list[r.Intn(len(s.list))]
			for k := 0; k <= r.Intn(3); k++ {
				switch r.Intn(3) {
				case 0:
					h[r.Intn(32)] ^= byte(1 << r.Intn(8))
				case 1:
					h[r.Intn(32)] = byte(r.Intn(256))
				case 2:
					h[r.Intn(32)] = 0
				}
			}
		} else {
			r.Read(h[:])
		}
		if s.times[h] == 0 {
			out = append(out, h)
		}
	}
	return out
}

// fits: 1 must be accepted, 0 may be refused.
func check(t *kit.T, r *rand.Rand, s *set, first int64, mustFit bool, what string) {
	var tree *indexedhashestree.VerifTree
	var overflow bool
	if p := kit.Panics(func() { tree, overflow = indexedhashestree.VerifGenerate(s.list, first) }); p != "" {
		t.Failf("generate-panics", "%s: generating the tree of %d hashes panics: %s", what, len(s.list), p)
		return
	}
	t.Evals(1)
	if overflow {
		t.Count("overflows", 1)
		if mustFit {
			t.Failf("refused", "%s: %d hashes are said not to fit", what, len(s.list))
		}
		return
	}
	size := 0
	if p := kit.Panics(func() { size = tree.Serialize() }); p != "" {
		t.Failf("serialize-panics", "%s: serializing the tree of %d hashes panics: %s", what, len(s.list), p)
		return
	}
	t.CountMax("tree-nodes", int64(tree.Nodes()))
	t.Distinct(what, len(s.list), tree.Nodes(), size)

	type answer struct {
		index int64
		dup   bool
		bits  uint32
	}
	shallow := func(h hash) (a answer, p string) {
		p = kit.Panics(func() { a.index, a.dup = tree.LookupShallow(h) })
		return
	}
	fixed := func(h hash) (a answer, p string) {
		p = kit.Panics(func() { a.index, a.dup, a.bits = tree.LookupFixed(h) })
		return
	}
	full := map[hash]answer{}
	deepest := 0
	bad := 0
	for i, h := range s.list {
		want := answer{first + int64(s.first[h]), s.times[h] > 1, 0}
		for k, f := range []func(hash) (answer, string){shallow, fixed} {
			a, p := f(h)
			name := []string{"shallow tree", "fixed-size nodes"}[k]
			if p != "" {
				t.Failf("lookup-panics", "%s, %s: looking up stored hash %x panics: %s", what, name, h, p)
				return
			}
			if a.index != want.index || a.dup != want.dup {
				t.Failf("stored-hash-missed", "%s, %s: hash %x (position %d, stored %d times, first as %d) gives %d, repeated=%v", what, name, h, i, s.times[h], want.index, a.index, a.dup)
				if bad++; bad > 3 {
					return
				}
			}
			if k == 1 {
				full[h] = a
				if n := bits.OnesCount32(a.bits); n > deepest {
					deepest = n
				}
			}
			if want.dup {
				t.Count("repeated-lookups", 1)
			}
		}
	}
	t.CountMax("bytes-examined", int64(deepest))
	t.Evals(int64(2 * len(s.list)))
	t.Count("stored-lookups", int64(2*len(s.list)))
	asked := s.absent(r, 200+len(s.list)/50)
	for _, h := range asked {
		a, p := shallow(h)
		b, q := fixed(h)
		if p != "" || q != "" {
			t.Failf("lookup-panics", "%s: looking up absent hash %x panics: %s%s", what, h, p, q)
			return
		}
		if a.index != b.index || a.dup != b.dup {
			t.Failf("answers-differ", "%s: absent hash %x: shallow tree says %d (%v), fixed-size nodes say %d (%v)", what, h, a.index, a.dup, b.index, b.dup)
			return
		}
		full[h] = b
		t.Evals(2)
		if b.index == -1 {
			t.Count("absent/none", 1)
			if len(s.list) > 5000 && r.Intn(20) != 0 {
				continue
			}
			for _, g := range s.list {
				if agrees(h, g, b.bits) {
					t.Failf("absent-too-soon", "%s: hash %x is said absent after bytes %032b, in which stored hash %x agrees", what, h, b.bits, g)
					return
				}
			}
			continue
		}
		i := b.index - first
		if i < 0 || i >= int64(len(s.list)) {
			t.Failf("number-of-nothing", "%s: hash %x gives number %d of %d hashes from %d", what, h, b.index, len(s.list), first)
			return
		}
		t.Count("absent/candidate", 1)
		if !agrees(h, s.list[i], b.bits) {
			t.Failf("candidate-disagrees", "%s: hash %x gives %d, hash %x, which differs in the bytes examined (%032b)", what, h, b.index, s.list[i], b.bits)
			return
		}
	}
	// only some levels loaded: what is not loaded is said so, never answered wrongly
	for _, levels := range []int{0, 1, 2, 3, deepest - 1, deepest, deepest + 1} {
		if levels < 0 || !tree.Truncate(levels) {
			continue
		}
		n := 0
		for h, want := range full {
			if n++; n > 400 {
				break
			}
			a, p := fixed(h)
			if p != "" {
				t.Failf("truncated-panics", "%s: with %d levels loaded, looking up %x panics: %s", what, levels, h, p)
				return
			}
			if a.index == want.index && a.dup == want.dup {
				continue
			}
			if a.index != -2 || bits.OnesCount32(want.bits) < levels || (!want.dup && bits.OnesCount32(want.bits) <= levels) {
				t.Failf("truncated-answer", "%s: with %d levels loaded, hash %x gives %d (%v); with all it gives %d (%v) after %d bytes", what, levels, h, a.index, a.dup, want.index, want.dup, bits.OnesCount32(want.bits))
				return
			}
			t.Count("not-loaded", 1)
		}
		t.Evals(int64(n))
	}
	tree.Whole()
}

func sets(seed int64, kind string, rounds int) func(t *kit.T) {
	return func(t *kit.T) {
		r := kit.NewRand(seed, "c21-"+kind)
		for k := 0; k < rounds; k++ {
			n := []int{0, 1, 2, 3, 4, 5, 6, 7, 89, 90, 91, 130, 131, 256, 257, 700, 3000}[r.Intn(17)]
			s := newSet()
			rep := 0
			if r.Intn(2) == 0 {
				rep = 1 + r.Intn(20)
			}
			for len(s.list) < n {
				if rep > 0 && len(s.list) > 0 && r.Intn(rep*5) == 0 {
					s.add(s.list[r.Intn(len(s.list))])
					continue
				}
				h := draw(r, kind, len(s.list))
				for try := 0; rep == 0 && s.times[h] > 0 && try < 50; try++ {
					if kind == "repeats" || kind == "grid" {
						break
					}
					h = draw(r, kind, len(s.list))
				}
				s.add(h)
			}
			check(t, r, s, int64(r.Intn(2))*int64(r.Intn(1<<40)), true, fmt.Sprintf("%s round %d", kind, k))
		}
	}
}

// chains: the deepest trees, with repeats at every depth.
func chains(seed int64, rounds int) func(t *kit.T) {
	return func(t *kit.T) {
		r := kit.NewRand(seed, "c21-chain")
		for k := 0; k < rounds; k++ {
			depth := 32 - r.Intn(3)*r.Intn(10)
			s := newSet()
			for n := 1 + r.Intn(3); n > 0; n-- {
				s.add(hash{})
			}
			for _, b := range r.Perm(32)[:depth] {
				var h hash
				h[b] = byte(1 + r.Intn(255))
				for n := 1 + r.Intn(2)*r.Intn(3); n > 0; n-- {
					s.add(h)
				}
			}
			r.Shuffle(len(s.list), func(i, j int) { s.list[i], s.list[j] = s.list[j], s.list[i] })
			u := newSet()
			for _, h := range s.list {
				u.add(h)
			}
			check(t, r, u, int64(r.Intn(1000)), true, fmt.Sprintf("chain round %d", k))
		}
	}
}

// boundary: hashes and nodes together just fit, or just do not fit, the 16 bits they share.
func boundary(seed int64, total int) func(t *kit.T) {
	return func(t *kit.T) {
		r := kit.NewRand(seed, fmt.Sprint("c21-boundary", total))
		pairs := 21000 - r.Intn(300)
		singles := total - 257 - 3*pairs
		s := newSet()
		for i, c := range r.Perm(65536)[:pairs+singles] {
			var h hash
			h[0], h[1] = byte(c), byte(c>>8)
			s.add(h)
			if i < pairs {
				h[2] = byte(1 + r.Intn(255))
				s.add(h)
			}
		}
		check(t, r, s, 5, total < 65530, fmt.Sprintf("%d hashes and %d nodes", len(s.list), 257+pairs))
		t.Count("boundary-sets", 1)
	}
}

func big(seed int64, kind string, n int) func(t *kit.T) {
	return func(t *kit.T) {
		r := kit.NewRand(seed, fmt.Sprint("c21-big", kind, n))
		s := newSet()
		for len(s.list) < n {
			s.add(draw(r, kind, len(s.list)))
		}
		check(t, r, s, int64(r.Intn(1<<30)), n <= 32000, fmt.Sprintf("%d %s hashes", n, kind))
	}
}

func main() {
	kit.Main(kit.Prop{
		ID:    "C21",
		Level: "monitored over generated sets of hashes",
		Rule:  "an online monitor looks every stored hash up in the shallow tree and in its serialized form and compares number and repetition with the set; for absent hashes both must agree, and the bytes said to be examined must really tell the hash from every stored one (or agree with the one offered); with levels left out the answer is the full one or 'not loaded'",
		Assumptions: []string{"up to 65535 hashes with numbers that follow each other, as the tree is made for",
			"the tree's private functions are reached through a file added to the package by a build overlay, using the names the package's own tests use"},
		MinEvals: 100000,
		Cases: func(tier string, seed int64) []kit.Case {
			var cs []kit.Case
			rounds, parts := 150, 4
			if tier == "thorough" {
				rounds, parts = 600, 16
			}
			for p := 0; p < parts; p++ {
				for _, k := range kinds {
					cs = append(cs, kit.Case{Name: fmt.Sprintf("sets/%s/%d", k, p), Run: sets(seed*1000+int64(p), k, rounds)})
				}
				cs = append(cs, kit.Case{Name: fmt.Sprintf("chains/%d", p), Run: chains(seed*1000+int64(p), rounds*2)})
			}
			for d := -8; d <= 4; d++ {
				cs = append(cs, kit.Case{Name: fmt.Sprintf("boundary/%d", 65536+d), Run: boundary(seed, 65536+d)})
			}
			for _, n := range []int{1000, 27000, 32000, 32768, 50000, 53000, 60000, 65535, 65536, 70000} {
				cs = append(cs, kit.Case{Name: fmt.Sprintf("big/uniform/%d", n), Run: big(seed, "uniform", n)})
			}
			for _, k := range []string{"fanout", "prefix", "tail", "grid", "twovalues"} {
				cs = append(cs, kit.Case{Name: "big/" + k, Run: big(seed, k, 30000)})
			}
			if tier == "thorough" {
				for n := 20000; n < 58000; n += 1111 {
					cs = append(cs, kit.Case{Name: fmt.Sprintf("big/uniform/%d", n), Run: big(seed, "uniform", n)})
				}
			}
			return cs
		},
	})
}
