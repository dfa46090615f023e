// C12: the hash index does not depend on how it was built; rebuilding leaves no trace; failures are reported.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	ih3 "github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"verifharness/kit"
	. "verifharness/lib/ix3"
)

// variants: the same hashes indexed in several ways, all asked the same.
func variants(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("variants/%d", k), Run: func(t *kit.T) {
		r := t.R
		n := []int{0, 1, 2, 30, 200, 1000, 3000}[r.Intn(7)]
		dir := t.Dir()
		s := RandShape(r, n)
		g := NewGen(r, s)
		m := NewModel()
		for i := 0; i < n; i++ {
			m.Add(g.Next())
		}
		var q []ih.Sha256
		q = append(q, m.List...)
		for i := 0; i < 100; i++ {
			q = append(q, g.Near())
		}
		var readers []ih.HashReader
		var whats []string
		for v := 0; v < 4; v++ {
			sv := s
			x := Index{Adaptive: v%2 == 0, Gb: 1, Threads: []int{1, 2, 3, 4, 7, 8, 16}[r.Intn(7)]}
			if !x.Adaptive && r.Intn(3) > 0 {
				sv = ManyPasses(r, s)
			}
			if x.Adaptive && s.Bins <= 60 && r.Intn(2) == 0 {
				x.Gb = 0 // one bin per pass
				t.Count("adaptive_many_passes", 1)
			}
			name := fmt.Sprintf("V%d", v)
			// half the time over an older index, of other hashes and perhaps other parameters
			if r.Intn(2) == 0 {
				so := s
				if r.Intn(2) == 0 {
					so = RandShape(r, 3000)
				}
				mo := NewModel()
				og := NewGen(r, so)
				for i := 0; i < 1+r.Intn(2000) && i < (1<<uint(min(so.Bits, 20)))-2; i++ {
					mo.Add(og.Next())
				}
				WriteHashes(dir, name, mo)
				xo := RandIndex(r)
				_, _, err := Build(dir, name, so, xo, nil)
				t.NoErr(err, "older index")
				t.Count("rebuilt_over_older", 1)
			}
			WriteHashes(dir, name, m)
			w := fmt.Sprintf("%v %v n=%d cluster=%d", sv, x, n, g.Cluster)
			t.Sample("%s", w)
			c, _, err := Build(dir, name, sv, x, nil)
			t.NoErr(err, "index "+w)
			if v == 3 {
				c, err = ih3.NewHashStoreCreatorFromFile(dir, name, true)
				t.NoErr(err, "creator from file")
				rw, err := c.OpenHashStore()
				t.NoErr(err, "open")
				readers = append(readers, rw)
			} else {
				ro, err := c.OpenHashStoreReadOnly()
				t.NoErr(err, "open")
				readers = append(readers, ro)
			}
			whats = append(whats, w)
			t.Count("indexes_built", 1)
		}
		for v, rd := range readers {
			CheckCount(t, whats[v], rd, m)
			for _, h := range q {
				CheckOne(t, whats[v], rd, m, h)
			}
		}
		for i := int64(-2); i < int64(n)+3; i++ {
			var first ih.Sha256
			var ferr error
			for v, rd := range readers {
				h := ih.Sha256{byte(i), byte(v)}
				err := rd.GetHashAtIndex(i, &h)
				CheckAt(t, whats[v], rd, m, i, false)
				if v == 0 {
					first, ferr = h, err
				} else if (err == nil) != (ferr == nil) || (err == nil && h != first) {
					t.Fatalf("variants-differ", "hash at %d is %x (%v) in %s but %x (%v) in %s", i, first, ferr, whats[0], h, err, whats[v])
				}
			}
		}
		for _, rd := range readers {
			t.NoErr(rd.Close(), "close")
		}
		t.Distinct(s.Bins, s.Start, n, g.Cluster)
	}}
}

// sameFiles: two stores indexed with the same method but other threads or passes have the same files.
// (The two methods are only promised to answer the same.)
func files(dir string) map[string][]byte {
	res := map[string][]byte{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && !strings.HasSuffix(p, ".json") {
			b, err := os.ReadFile(p)
			kit.Must(err)
			rel, _ := filepath.Rel(dir, p)
			res[rel] = b
		}
		return nil
	})
	return res
}

func sameFiles(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("samefiles/%d", k), Run: func(t *kit.T) {
		r := t.R
		n := 20 + r.Intn(2000)
		dir := t.Dir()
		s := RandShape(r, n)
		g := NewGen(r, s)
		m := NewModel()
		for i := 0; i < n; i++ {
			m.Add(g.Next())
		}
		var first map[string][]byte
		for v := 0; v < 4; v++ {
			x := Index{Adaptive: v >= 2, Gb: 1, Threads: 1 + r.Intn(12)}
			name := fmt.Sprintf("V%d", v)
			WriteHashes(dir, name, m)
			sv := s
			if v == 1 && r.Intn(2) == 0 {
				sv = ManyPasses(r, s)
			}
			_, _, err := Build(dir, name, sv, x, nil)
			t.NoErr(err, "index")
			f := files(filepath.Join(dir, name))
			if v == 0 || v == 2 {
				first = f
				continue
			}
			t.Evals(int64(len(f)))
			for p, b := range first {
				if !bytes.Equal(b, f[p]) {
					t.Fatalf("files-differ", "%v: file %s differs between two builds, build %d (%v)", s, p, v, x)
				}
			}
			if len(f) != len(first) {
				t.Fatalf("files-differ", "%v: %d files against %d in build %d (%v)", s, len(first), len(f), v, x)
			}
		}
		t.Distinct("samefiles", s.Bins, s.Start, n)
	}}
}

// failures: what makes an index impossible is reported, and no goroutine is left behind.
func failure(k int) kit.Case {
	kinds := []string{"missing-hashes", "truncated-hashes", "binstarts-is-folder", "binstarts-full", "binnums-full", "hashes-is-folder", "too-many-hashes"}
	kind := kinds[k%len(kinds)]
	return kit.Case{Name: fmt.Sprintf("failure/%s/%d", kind, k/len(kinds)), Run: func(t *kit.T) {
		r := t.R
		for rep := 0; rep < 6; rep++ {
			adaptive := rep%2 == 0
			if kind == "too-many-hashes" && !adaptive {
				continue // a panic: stops loudly
			}
			dir := t.SubDir(fmt.Sprint(rep))
			p := filepath.Join(dir, "S")
			n := 50 + r.Intn(500)
			s := RandShape(r, n)
			s.Start = 2
			if kind == "too-many-hashes" {
				s.Bits = 8
				n = 256 + 1 + r.Intn(200)
			}
			g := NewGen(r, s)
			m := NewModel()
			for i := 0; i < n; i++ {
				m.Add(g.Next())
			}
			WriteHashes(dir, "S", m)
			x := Index{Adaptive: adaptive, Gb: 1, Threads: 1 + r.Intn(8)}
			cut := 0
			switch kind {
			case "missing-hashes":
				kit.Must(os.Remove(filepath.Join(p, "Hashes.hsh")))
			case "truncated-hashes":
				cut = 1 + r.Intn(31)
				kit.Must(os.Truncate(filepath.Join(p, "Hashes.hsh"), int64(n*32-cut)))
			case "binstarts-is-folder":
				kit.Must(os.Mkdir(filepath.Join(p, "BinStarts.bes"), 0755))
			case "binstarts-full":
				kit.Must(os.Symlink("/dev/full", filepath.Join(p, "BinStarts.bes")))
			case "binnums-full":
				kit.Must(os.Symlink("/dev/full", filepath.Join(p, "BinNums.int")))
			case "hashes-is-folder":
				kit.Must(os.Remove(filepath.Join(p, "Hashes.hsh")))
				kit.Must(os.Mkdir(filepath.Join(p, "Hashes.hsh"), 0755))
			}
			before := runtime.NumGoroutine()
			_, _, err := Build(dir, "S", s, x, nil)
			t.Evals(1)
			t.Count("failures_injected", 1)
			if err == nil {
				t.Failf("failure-swallowed:"+kind, "%s: %v %v n=%d cut=%d: indexing reported success", kind, s, x, n, cut)
			} else {
				t.Count("failures_reported", 1)
			}
			for i := 0; i < 200 && runtime.NumGoroutine() > before; i++ {
				time.Sleep(10 * time.Millisecond)
			}
			if e := runtime.NumGoroutine(); e > before {
				t.Failf("goroutine-left:"+kind, "%s: %v: %d goroutines before, %d two seconds after the failure", kind, x, before, e)
			}
			t.Distinct("failure", kind, adaptive, cut)
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C12",
		Rule:     "the same file of hashes indexed by both indexers, with 1-16 threads, one or many passes, fresh or over an older index of other hashes and parameters, on disk and in RAM: all asked every hash, near misses and every position, and their files compared; and every input that cannot be indexed (missing, truncated, unreadable hashes, unwritable files, more hashes than the index has bits) must be reported without leaving goroutines. Distinct: shapes, sizes and failure kinds",
		MinEvals: 50000,
		Cases: func(tier string, seed int64) []kit.Case {
			n := 60
			if tier == "thorough" {
				n = 1500
			}
			var cs []kit.Case
			for i := 0; i < 21; i++ {
				cs = append(cs, failure(i))
			}
			for i := 0; i < n; i++ {
				cs = append(cs, variants(i))
				if i%2 == 0 {
					cs = append(cs, sameFiles(i))
				}
			}
			return cs
		},
	})
}
