// C35: stores are as exact at the size of the real chain as when they are small.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	ih3 "github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	"github.com/KitchenMishap/pudding-shed/memfile"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/ix3"
	"verifharness/lib/store"
)

// holes tells whether a file of n bytes, nearly all of them a hole, can be had here.
func holes(t *kit.T, n int64) bool {
	f, err := os.Create(filepath.Join(t.Dir(), "hole"))
	kit.Must(err)
	defer os.Remove(f.Name())
	defer f.Close()
	if f.Truncate(n) != nil {
		t.Count("no_big_holes", 1)
		return false
	}
	return true
}

// near draws a number a little before one of the boundaries that matter and below the limit.
func near(t *kit.T, limit int64, span int, marks ...int64) int64 {
	var ok []int64
	for _, m := range marks {
		if b := m - int64(t.R.Intn(span)); b > 0 && b+2*int64(span) < limit {
			ok = append(ok, b)
		}
	}
	if len(ok) == 0 {
		return max(limit/2-int64(span), 0)
	}
	return ok[t.R.Intn(len(ok))]
}

// words: a word file with holes before what is written.
func words(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("words/%02d", k), Run: func(t *kit.T) {
		ws := int64(1 + k%8)
		base := near(t, 150<<30/ws, 40, 1<<31, 1<<32, 1<<31/ws, 1<<32/ws, 1<<33/ws, 1<<31/ws+20, 1<<32/ws+20, 2652374369, 1139137995)
		if !holes(t, (base+1000)*ws) {
			return
		}
		dir := t.Dir()
		var c wordfile.WordFileCreator = wordfile.NewConcreteWordFileCreator("w", dir, ws, false, false)
		what := fmt.Sprintf("word file of %d byte words, %d words before", ws, base)
		t.Sample("%s", what)
		if k%3 == 0 {
			t.NoErr(c.CreateWordFileFilledZeros(3), what+" create")
		} else {
			t.NoErr(c.CreateWordFile(), what+" create")
		}
		kit.Must(os.Truncate(filepath.Join(dir, "w.int"), base*ws))
		limit := int64(1)<<uint(min(8*ws, 63)) - 1
		model := map[int64]int64{}
		end := base
		check := func(w string, f wordfile.ReadAtWordCounter) {
			n, err := f.CountWords()
			if err != nil || n != end {
				t.Fatalf("words-count", "%s: %s: %d words (%v) want %d", what, w, n, err, end)
			}
			for p, v := range model {
				g, err := f.ReadWordAt(p)
				if err != nil || g != v {
					t.Fatalf("words-read", "%s: %s: word %d is %d (%v) want %d", what, w, p, g, err, v)
				}
			}
			for i := 0; i < 10; i++ {
				p := t.R.Int63n(base)
				if _, has := model[p]; has {
					continue
				}
				if g, err := f.ReadWordAt(p); err != nil || g != 0 {
					t.Fatalf("words-hole", "%s: %s: word %d is %d (%v) want 0", what, w, p, g, err)
				}
			}
			if g, err := f.ReadWordAt(end + int64(t.R.Intn(3))); err == nil {
				t.Fatalf("words-beyond", "%s: %s: a word beyond the end is %d", what, w, g)
			}
			t.Evals(int64(len(model)) + 12)
		}
		for s := 0; s < 2; s++ {
			f, err := c.OpenWordFile()
			t.NoErr(err, what+" open")
			check("opened", f)
			for i := 0; i < 60; i++ {
				p := end
				switch t.R.Intn(6) {
				case 0:
					p = base + t.R.Int63n(end-base+1)
				case 1:
					p = t.R.Int63n(base)
				}
				v := t.R.Int63n(limit)
				if t.R.Intn(4) == 0 {
					v = limit
				}
				t.NoErr(f.WriteWordAt(v, p), what+" write")
				model[p] = v
				end = max(end, p+1)
				if t.R.Intn(10) == 0 {
					check("after a write", f)
				}
			}
			check("written", f)
			t.NoErr(f.Sync(), what+" sync")
			t.NoErr(f.Close(), what+" close")
			for m, c := range []wordfile.WordFileCreator{c, wordfile.NewConcreteMmapWordFileCreator("w", dir, ws)} {
				ro, err := c.OpenWordFileReadOnly()
				t.NoErr(err, what+" open read only")
				check([]string{"read only", "mapped"}[m], ro)
				t.NoErr(ro.(io.Closer).Close(), what+" close")
			}
		}
		t.CountMax("furthest_byte", end*ws)
		t.CountMax("furthest_word", end)
		t.Distinct("words", ws, base)
	}}
}

// plain: the file wrappers, against what was written, far from the start.
func plain(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("bytes/%02d", k), Run: func(t *kit.T) {
		base := near(t, 1<<37, 3000, 1<<31, 1<<32, 1<<33, 1<<31+1500, 1<<32+1500, 1<<36)
		if !holes(t, base+1<<20) {
			return
		}
		name := filepath.Join(t.Dir(), "f")
		f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0644)
		kit.Must(err)
		kit.Must(f.Truncate(base))
		what := fmt.Sprintf("file with %d bytes before", base)
		t.Sample("%s", what)
		var a interface {
			io.ReaderAt
			io.WriterAt
			io.Closer
			Sync() error
		}
		if k%3 == 0 {
			a, what = memfile.NewFileWithSize(f), "FileWithSize of a "+what
		} else {
			ao, err := memfile.NewAppendOptimizedFile(f)
			t.NoErr(err, what)
			a, what = ao, "append-optimized "+what
		}
		const before = 100 // of the hole, in the model
		model := make([]byte, before)
		for i := 0; i < 300; i++ {
			at := len(model)
			if t.R.Intn(4) == 0 {
				at = t.R.Intn(len(model) + 1)
			}
			p := make([]byte, 1+t.R.Intn(40))
			if t.R.Intn(10) == 0 {
				p = make([]byte, t.R.Intn(9000))
			}
			t.R.Read(p)
			n, err := a.WriteAt(p, base-before+int64(at))
			if n != len(p) || err != nil {
				t.Fatalf("bytes-write", "%s: writing %d bytes at %d: %d, %v", what, len(p), base-before+int64(at), n, err)
			}
			if at+len(p) > len(model) {
				model = append(model, make([]byte, at+len(p)-len(model))...)
			}
			copy(model[at:], p)
			if z, is := a.(interface{ Size() int64 }); !is {
			} else if s := z.Size(); s != base-before+int64(len(model)) {
				t.Fatalf("bytes-size", "%s: size %d want %d", what, s, base-before+int64(len(model)))
			}
			at = t.R.Intn(len(model))
			q := make([]byte, t.R.Intn(len(model)-at)+1)
			n, err = a.ReadAt(q, base-before+int64(at))
			if n != len(q) || err != nil && err != io.EOF || !bytes.Equal(q, model[at:at+len(q)]) {
				t.Fatalf("bytes-read", "%s: reading %d bytes at %d: %d, %v, right %v", what, len(q), base-before+int64(at), n, err, bytes.Equal(q, model[at:at+len(q)]))
			}
			if t.R.Intn(30) == 0 {
				t.NoErr(a.Sync(), what+" sync")
			}
			t.Evals(3)
		}
		t.NoErr(a.Close(), what+" close")
		g, err := os.Open(name)
		kit.Must(err)
		defer g.Close()
		st, err := g.Stat()
		kit.Must(err)
		all := make([]byte, len(model))
		_, err = g.ReadAt(all, base-before)
		if st.Size() != base-before+int64(len(model)) || err != nil && err != io.EOF || !bytes.Equal(all, model) {
			t.Fatalf("bytes-file", "%s: the file has %d bytes, want %d (%v), right %v", what, st.Size(), base-before+int64(len(model)), err, bytes.Equal(all, model))
		}
		t.CountMax("furthest_byte", st.Size())
		t.Distinct("bytes", k%3 == 0, base)
	}}
}

// hashes: the original hash store, with a hole in its list of hashes.
func hashes(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("hashes/%02d", k), Run: func(t *kit.T) {
		eb := int64(2 + k%6)                       // with 8 none can be stored
		limit := int64(1) << uint(min(8*eb-1, 32)) // the highest bit marks a collision
		base := near(t, limit, 100, 1<<31, 1<<26, 1<<27, 1<<24, 1<<23, 1<<16, 1<<15, limit-210)
		if !holes(t, (base+1000)*32) {
			return
		}
		dir := t.Dir()
		pb := int64(4 + t.R.Intn(12))
		cc := int64(2 + t.R.Intn(7))
		c, err := ih.NewConcreteHashStoreCreator("H", dir, pb, eb, cc, t.R.Intn(2) == 0, t.R.Intn(2) == 0)
		if err != nil {
			return // not all of them go together
		}
		what := fmt.Sprintf("hash store of %d bits, entries of %d bytes, chunks of %d, with %d hashes before", pb, eb, cc, base)
		t.Sample("%s", what)
		t.NoErr(c.CreateHashStore(), what+" create")
		kit.Must(os.Truncate(filepath.Join(dir, "H.hsh"), base*32))
		var list []ih.Sha256
		check := func(w string, s ih.HashReader) {
			n, err := s.CountHashes()
			if err != nil || n != base+int64(len(list)) {
				t.Fatalf("hashes-count", "%s: %s: %d hashes (%v) want %d", what, w, n, err, base+int64(len(list)))
			}
			for i, h := range list {
				in, out := h, ih.Sha256{}
				idx, err := s.IndexOfHash(&in)
				if err != nil || idx != base+int64(i) {
					t.Fatalf("hashes-index", "%s: %s: hash %d found at %d (%v) want %d", what, w, i, idx, err, base+int64(i))
				}
				if err = s.GetHashAtIndex(idx, &out); err != nil || out != h {
					t.Fatalf("hashes-at", "%s: %s: wrong hash at %d (%v)", what, w, idx, err)
				}
				in[31] ^= 0x55
				if idx, err = s.IndexOfHash(&in); err != nil || idx != -1 {
					t.Fatalf("hashes-absent", "%s: %s: a hash never stored is at %d (%v)", what, w, idx, err)
				}
				t.Evals(3)
			}
		}
		for s := 0; s < 2; s++ {
			st, err := c.OpenHashStore()
			t.NoErr(err, what+" open")
			for i := 0; i < 60; i++ {
				var h ih.Sha256
				t.R.Read(h[:])
				if t.R.Intn(3) == 0 && len(list) > 0 { // the same entry
					copy(h[:8], list[t.R.Intn(len(list))][:8])
				}
				in := h
				idx, err := st.AppendHash(&in)
				if err != nil || idx != base+int64(len(list)) {
					t.Fatalf("hashes-append", "%s: appended at %d (%v) want %d", what, idx, err, base+int64(len(list)))
				}
				list = append(list, h)
			}
			check("written", st)
			t.NoErr(st.Close(), what+" close")
			ro, err := c.OpenHashStoreReadOnly()
			t.NoErr(err, what+" open read only")
			check("read only", ro)
			t.NoErr(ro.Close(), what+" close")
		}
		t.CountMax("furthest_hash", base+int64(len(list)))
		t.Distinct("hashes", eb, pb, cc, base)
	}}
}

// lists: the lists of hashes gathered first, grown from where the real chain is.
func lists(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("lists/%d", k), Run: func(t *kit.T) {
		n := []int64{888000, 1 << 31, 1<<32 + 5}
		if !holes(t, (n[2]+100000)*32) {
			return
		}
		if k%2 == 1 {
			n = []int64{near(t, 1<<32, 40, 1<<16, 1<<20, 1<<27), near(t, 1<<32, 40, 1<<26, 1<<27, 1<<31, 1139137995), near(t, 1<<33, 40, 1<<27, 1<<31, 1<<32, 2652374369)}
		}
		dir := t.Dir()
		c := chainstorage.NewConcreteHashesChainCreator(dir)
		t.NoErr(c.Create(), "create lists")
		names := []string{"Blocks", "Transactions", "Addresses"}
		for i, f := range names {
			kit.Must(os.Truncate(filepath.Join(dir, f, "Hashes", "Hashes.hsh"), n[i]*32))
		}
		co := btc.RandChainOpts(t.R, 8+t.R.Intn(12))
		chain := btc.Chain(t.R, co)
		m := store.NewModel(chain, len(chain))
		src := store.RandSource(t.R, m, true)
		src.Base = store.Base{Blk: n[0], Trn: n[1], Txo: n[2], Txi: n[2], Addr: n[2]}
		what := fmt.Sprintf("lists of hashes with %v before", n)
		t.Sample("%s", what)
		for h := 0; h < len(chain); {
			l, err := c.Open()
			t.NoErr(err, what+" open")
			for i := 1 + t.R.Intn(len(chain)-h); i > 0; i-- {
				if k/2%2 == 0 {
					err = l.AppendHashesChi(store.Chi{Source: src}, store.Chi{Source: src}.Block(h))
				} else {
					err = l.AppendHashesCri(store.Cri{Source: src}, store.Cri{Source: src}.Block(h), src.Base.Blk+int64(h))
				}
				t.NoErr(err, what+" append")
				h++
				p := store.NewModel(chain, h)
				b, tr, a, err := l.CountHashes()
				if err != nil || b != n[0]+int64(len(p.BlkHashes)) || tr != n[1]+int64(len(p.TrnHashes)) || a != n[2]+int64(len(p.AddrHashes)) {
					t.Fatalf("lists-count", "%s: counts %d %d %d (%v) after %d more blocks", what, b, tr, a, err, h)
				}
				t.Evals(3)
			}
			t.NoErr(l.Sync(), what+" sync")
			l.Close()
		}
		for i, l := range [][]btc.Hash{m.BlkHashes, m.TrnHashes, m.AddrHashes} {
			f, err := os.Open(filepath.Join(dir, names[i], "Hashes", "Hashes.hsh"))
			kit.Must(err)
			st, err := f.Stat()
			kit.Must(err)
			got := make([]byte, 32*len(l))
			_, err = f.ReadAt(got, n[i]*32)
			f.Close()
			if st.Size() != (n[i]+int64(len(l)))*32 || err != nil && err != io.EOF {
				t.Fatalf("lists-size", "%s: %s has %d bytes (%v)", what, names[i], st.Size(), err)
			}
			for j, h := range l {
				if !bytes.Equal(got[32*j:32*j+32], h[:]) {
					t.Fatalf("lists-hash", "%s: hash %d of %s is wrong", what, n[i]+int64(j), names[i])
				}
			}
			t.Evals(int64(len(l)))
		}
		t.CountMax("furthest_hash", n[2])
		t.Distinct("lists", k, n[1])
	}}
}

// arrays: keys and values as great as the format has room for.
func arrays(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("arrays/%d", k), Run: func(t *kit.T) {
		dir := t.Dir()
		eb := int64(5)
		df, dd := int64(5), int64(2)
		if k%4 != 0 {
			eb, df, dd = int64(1+t.R.Intn(8)), int64(1+t.R.Intn(4)), int64(1+t.R.Intn(3))
		}
		c := intarrayarray.NewConcreteMapStoreCreator("m", dir, df, dd, eb, k%2 == 0)
		what := fmt.Sprintf("map of arrays, digits %d %d, elements of %d bytes", df, dd, eb)
		t.Sample("%s", what)
		t.NoErr(c.CreateMap(), what+" create")
		limit := int64(1)<<uint(min(8*eb, 63)) - 1
		model := map[int64][]int64{}
		var keys []int64
		for i := 0; i < 12; i++ {
			b := near(t, 1<<44, 50, 1<<24, 1<<31, 1<<32, 2652374369, 1<<33, 1<<40, 9999999999)
			keys = append(keys, b, b+int64(t.R.Intn(60)), b&0xffffffff, b&0x7fffffff)
		}
		for s := 0; s < 2; s++ {
			m, err := c.OpenMap()
			t.NoErr(err, what+" open")
			for i := 0; i < 150; i++ {
				key := keys[t.R.Intn(len(keys))]
				v := t.R.Int63n(limit)
				if t.R.Intn(4) == 0 {
					v = limit
				}
				if v == 0 {
					v = 1
				}
				t.NoErr(m.AppendToArray(key, v), what+" append")
				model[key] = append(model[key], v)
			}
			t.NoErr(m.Sync(), what+" sync")
			ro, err := c.OpenMapReadOnly()
			t.NoErr(err, what+" open read only")
			for w, r := range map[string]intarrayarray.IntArrayMapStoreReadOnly{"written": m, "read only": ro} {
				for _, key := range keys {
					got, err := r.GetArray(key)
					if err != nil || fmt.Sprint(got) != fmt.Sprint(model[key]) && len(got)+len(model[key]) > 0 {
						t.Fatalf("arrays", "%s: %s: array %d is %v (%v) want %v", what, w, key, got, err, model[key])
					}
					t.Evals(1)
				}
			}
		}
		t.Distinct("arrays", eb, df, dd, k%2)
	}}
}

// index: hashes preloaded into an index with the parameters for sixteen years.
func index(kind string, adaptive bool, p func() *ih3.HashIndexingParams, n int) kit.Case {
	return kit.Case{Name: "index/" + kind, Timeout: 20 * time.Minute, Run: func(t *kit.T) {
		q := p()
		if !holes(t, q.NumberOfBins()*q.EntriesInBinStart()*q.BytesPerBinEntry()) {
			return
		}
		s := ix3.Shape{Bits: q.BitsPerHashIndex(), Estimate: q.HashCountEstimate(), Digits: q.DigitsPerNumberedFolder(), Bins: q.NumberOfBins(), Start: q.EntriesInBinStart(), SortBytes: q.BytesPerSortNum()}
		m, g := ix3.NewModel(), ix3.NewGen(t.R, s)
		for i := 0; i < n; i++ {
			m.Add(g.Next())
		}
		dir := t.Dir()
		ix3.WriteHashes(dir, "S", m)
		var ba *ih3.BinsArray
		if !adaptive {
			// as the pipeline makes it
			ba = ih3.NewBinsArray(q.EntriesInBinStart(), q.BytesPerBinEntry(), int64(1<<30)/(q.BytesPerBinEntry()*q.EntriesInBinStart()))
		}
		c, _, err := ix3.Build(dir, "S", s, ix3.Index{Gb: 1, Threads: 4, Adaptive: adaptive}, ba)
		t.NoErr(err, "index")
		ro, err := c.OpenHashStoreReadOnly()
		t.NoErr(err, "open read only")
		ix3.CheckAll(t, fmt.Sprintf("index with the parameters %v", s), ro, m, g, true)
		t.NoErr(ro.Close(), "close")
		t.Distinct("index", kind)
	}}
}

// chain: blocks appended to a store that has as much before as the real chain.
func chain(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("chain/%02d", k), Run: func(t *kit.T) {
		if !holes(t, 200<<30) {
			return
		}
		delegated, useChi := k%2 == 0, k/2%2 == 0
		co := btc.RandChainOpts(t.R, 6+t.R.Intn(20))
		co.Dups = co.Dups && delegated
		blocks := btc.Chain(t.R, co)
		m := store.NewModel(blocks, len(blocks))
		o := store.Opts{BlockNeis: store.BlockNeis, TransNeis: store.TransNeis}
		src := store.RandSource(t.R, m, delegated)

		// a small one tells how the files are laid out
		small := t.SubDir("near")
		t.NoErr(store.GatherHashes(small, src, useChi, len(blocks)), "gather")
		t.NoErr(store.Index(small, false, 2, m), "index")
		acc, err := store.Creator(small, delegated, o.BlockNeis, o.TransNeis)
		t.NoErr(err, "creator")
		t.NoErr(acc.CreateFromHashStores(), "create")
		w, err := store.Open(acc, src, useChi, delegated)
		t.NoErr(err, "open")
		for h := range blocks {
			t.NoErr(w.Block(h), "append")
		}
		t.NoErr(w.Ac.Sync(), "sync")
		w.Ac.Close()
		size, kind, err := store.WordSizes(small, m)
		if err != nil {
			t.Inconclusive("the layout of the files of a store is not known: %v", err)
			return
		}
		os.RemoveAll(small)

		base := store.Base{Blk: 888888, Trn: 1169006653, Txi: 3100000000, Txo: 3244977536}
		if k >= 4 {
			base.Blk = near(t, 1<<21, 8, 1<<16, 1<<17, 1<<20, 888888, 1000000)
			base.Trn = near(t, 1<<31-3000, 50, 1<<24, 1<<30, 1139137995, 1<<31-4000)
			base.Txi = near(t, 1<<34, 50, 1<<24, 1<<31, 1<<32, 2500000000, 1<<33)
			base.Txo = near(t, 1<<34, 50, 1<<24, 1<<31, 2652374369, 1<<32-200000, 1<<32, 1<<32+100, 1<<33)
		}
		if k >= 4 && k < 6 {
			base.Txo = 1<<32 - t.R.Int63n(50)
		}
		base.Addr = min(base.Txo, 1<<32-t.R.Int63n(1000000)-200000) // the list has one for every output of the real chain
		if base.Addr > 1000000 && t.R.Intn(3) == 0 {
			base.Addr -= t.R.Int63n(1000000)
		}
		src.Base = base
		what := fmt.Sprintf("%d blocks after %+v, chi %v, delegated %v, %s", len(blocks), base, useChi, delegated, src)
		t.Sample("%s", what)
		dir := t.SubDir("far")
		p := map[string]*ih3.HashIndexingParams{"Blocks": ih3.Sensible16YearsBlockHashParams(), "Transactions": ih3.Sensible16YearsTransactionHashParams(), "Addresses": ih3.Sensible16YearsAddressHashParams()}
		t.NoErr(store.Far(dir, m, base, p, delegated, size, kind, o), what)
		for h := 0; h < len(blocks); {
			acc, err := store.OnDisk(dir, delegated, o)
			t.NoErr(err, what+" creator")
			w, err := store.Open(acc, src, useChi, delegated)
			t.NoErr(err, what+" open")
			for i := 1 + t.R.Intn(len(blocks)-h); i > 0; i-- {
				t.NoErr(w.Block(h), fmt.Sprintf("%s: append block %d", what, h))
				h++
			}
			t.NoErr(w.Ac.Sync(), what+" sync")
			w.Ac.Close()
		}
		acc, err = store.OnDisk(dir, delegated, o)
		t.NoErr(err, what+" creator")
		var v store.View
		v.Bc, v.Hc, v.Par, v.Pf, err = acc.OpenReadOnly()
		t.NoErr(err, what+" open read only")
		store.VerifyFar(t, what, m, base, v, o)
		t.CountMax("furthest_output", base.Txo+int64(len(m.Txos)))
		t.CountMax("furthest_transaction", base.Trn+int64(len(m.Txs)))
		t.Count("chains", 1)
		t.Count("blocks_appended", int64(len(blocks)))
		t.Distinct("chain", delegated, useChi, base)
		t.Retire() // the readable chain cannot be closed
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID: "C35", Level: "exercised", MinEvals: 5000,
		Rule: "word files, file wrappers, lists of hashes, the original hash store, maps of arrays and whole chain stores are given as much before as the real chain has, and more, as holes in their files: " +
			"hash indexes are made with the parameters for the whole chain; counts and offsets just before and beyond 2^24, 2^31 and 2^32 and the real ones. Then they are appended to, overwritten, closed, opened again every way there is, and compared with a model. Distinct: kinds, sizes and what is before",
		Assumptions: []string{
			"what is in a hole reads as zeroes and is not asked for, but by position in word files",
			"more than the format has room for is not asked of it (2^31 transactions, 2^32 addresses)",
			"the cakes and the fixed-node-size tree are kept in memory and are not taken so far",
		},
		Cases: func(tier string, seed int64) []kit.Case {
			n := 1
			if tier == "thorough" {
				n = 12
			}
			var cs []kit.Case
			cs = append(cs, index("multi-trn", false, ih3.Sensible16YearsTransactionHashParams, 20000),
				index("multi-addr", false, ih3.Sensible16YearsAddressHashParams, 20000),
				index("multi-blk", false, ih3.Sensible16YearsBlockHashParams, 20000))
			if n > 1 {
				cs = append(cs, index("adaptive-trn", true, ih3.Sensible16YearsTransactionHashParams, 20000),
					index("adaptive-blk", true, ih3.Sensible16YearsBlockHashParams, 20000))
			}
			for i := 0; i < 8*n; i++ {
				cs = append(cs, chain(i))
			}
			for i := 0; i < 32*n; i++ {
				cs = append(cs, words(i))
			}
			for i := 0; i < 18*n; i++ {
				cs = append(cs, plain(i))
			}
			for i := 0; i < 21*n; i++ {
				cs = append(cs, hashes(i))
			}
			for i := 0; i < 4*n; i++ {
				cs = append(cs, lists(i))
			}
			for i := 0; i < 8*n; i++ {
				cs = append(cs, arrays(i))
			}
			return cs
		},
	})
}
