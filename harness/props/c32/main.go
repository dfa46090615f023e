// C32: what was handed over belongs to whoever has it.
package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	cri "github.com/KitchenMishap/pudding-shed/chainreadinterface"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"

	"verifharness/kit"
	"verifharness/lib/blockcmp"
	"verifharness/lib/btc"
	"verifharness/lib/store"
	"verifharness/lib/subjects"
)

// life of a thing whose user keeps, compares and writes over what it gets and gave.
func life(s subjects.Subject, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("%s/%d", s.Name, k), Timeout: 5 * time.Minute, Run: func(t *kit.T) {
		subjects.Hostile, subjects.Kept, subjects.Spoilt = true, 0, 0
		defer func() { subjects.Hostile = false }()
		r := t.R
		x := s.New(r)
		dir := t.SubDir("x")
		t.NoErr(x.Build(dir), "building")
		bad := func(how string, err error) {
			t.Evals(1)
			if err != nil {
				t.Fatalf("life", "%s, %s: %v", s.Name, how, err)
			}
		}
		for n := 6 + r.Intn(4); n > 0; n-- {
			how, open := "open for writing", x.RW
			if open == nil || (x.RO != nil && r.Intn(3) == 0) {
				how, open = "open read only", x.RO
			}
			y, err := open(dir)
			t.NoErr(err, "opening")
			for m := 4 + r.Intn(12); m > 0; m-- {
				if y.Append != nil && r.Intn(2) == 0 {
					bad(how, y.Append(r, 1+r.Intn(20)))
				} else {
					bad(how, y.Read(t, r, 5+r.Intn(30)))
				}
				if y.Sync != nil && r.Intn(4) == 0 {
					bad(how+", syncing", y.Sync())
				}
			}
			bad(how, y.Read(t, r, 60)) // and what was kept up to now
			if y.Close != nil {
				bad("closing", y.Close())
			} else if y.Sync != nil {
				bad("syncing", y.Sync())
			}
			t.Count("sessions", 1)
		}
		if x.RO != nil {
			y, err := x.RO(dir)
			t.NoErr(err, "opening")
			bad("in the end", y.Read(t, r, 200))
			if y.Close != nil {
				bad("closing", y.Close())
			}
		}
		t.Evals(subjects.Kept)
		t.Count("kept_and_unchanged", subjects.Kept)
		t.Count("written_over", subjects.Spoilt)
		t.Distinct(s.Name, k)
	}}
}

// memory is one object obtained from a view, and what it said then.
type memory struct {
	what string
	say  func() string
	said string
}

func show(m *map[string]int64, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	var l []string
	for k, v := range *m {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func sayBlockHandle(b cri.IBlockHandle) string {
	s := fmt.Sprint(b.IsInvalid(), b.HeightSpecified(), b.HashSpecified())
	if b.HeightSpecified() {
		s += fmt.Sprint(" ", b.Height())
	}
	if b.HashSpecified() {
		h, err := b.Hash()
		s += fmt.Sprintf(" %x %v", h, err)
	}
	return s
}

func sayTransHandle(x cri.ITransHandle) string {
	s := fmt.Sprint(x.IsInvalid(), x.HeightSpecified(), x.HashSpecified())
	if x.HeightSpecified() {
		s += fmt.Sprint(" ", x.Height())
	}
	if x.HashSpecified() {
		h, err := x.Hash()
		s += fmt.Sprintf(" %x %v", h, err)
	}
	return s
}

func sayTxo(x cri.ITxoHandle) string { return fmt.Sprint(x.TxoHeightSpecified(), x.TxoHeight()) }
func sayTxi(x cri.ITxiHandle) string { return fmt.Sprint(x.TxiHeightSpecified(), x.TxiHeight()) }

func view(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("view/%d", k), Run: func(t *kit.T) {
		r := t.R
		delegated := k%2 == 0
		o := btc.RandChainOpts(r, 12+r.Intn(20))
		o.Big, o.Wide, o.Dups = false, false, o.Dups && delegated
		c := btc.Chain(r, o)
		m := store.NewModel(c, len(c))
		src := store.RandSource(r, m, delegated)
		useChi := r.Intn(2) == 0
		dir := t.SubDir("s")
		t.NoErr(store.GatherHashes(dir, src, useChi, len(c)), "gathering")
		t.NoErr(store.Index(dir, r.Intn(2) == 0, 2, m), "indexing")
		acc, err := store.Creator(dir, delegated, store.BlockNeis, store.TransNeis)
		t.NoErr(err, "creator")
		t.NoErr(acc.CreateFromHashStores(), "creating")
		w, err := store.Open(acc, src, useChi, delegated)
		t.NoErr(err, "opening")
		for h := range c {
			t.NoErr(w.Block(h), "appending")
		}
		w.Ac.Close()
		var v store.View
		if k%4 == 2 {
			v, err = store.OpenRam(dir, delegated)
		} else {
			v, err = store.OpenReadOnly(dir, delegated, false, r.Intn(2) == 0)
		}
		t.NoErr(err, "opening read only")

		var mem []memory
		must := func(err error) {
			if err != nil {
				t.Fatalf("error", "delegated %v: %v", delegated, err)
			}
		}
		add := func(what string, say func() string) {
			said := say()
			mem = append(mem, memory{what, say, said})
		}
		spoilMap := func(x *map[string]int64, err error) {
			must(err)
			for k := range *x {
				(*x)[k] = -7
			}
			(*x)["more"] = 1
			t.Count("written_over", 1)
		}
		sayBlock := func(b cri.IBlock) string {
			n, err := b.TransactionCount()
			must(err)
			s := sayBlockHandle(b) + fmt.Sprint(" ", n) + show(b.NonEssentialInts())
			for _, i := range []int64{0, n - 1} {
				x, err := b.NthTransaction(i)
				must(err)
				s += " " + sayTransHandle(x)
			}
			return s
		}
		sayTrans := func(x cri.ITransaction) string {
			ni, err := x.TxiCount()
			must(err)
			no, err := x.TxoCount()
			must(err)
			a, err := x.AllTxoSatoshis()
			must(err)
			s := sayTransHandle(x) + fmt.Sprint(" ", ni, no, a) + show(x.NonEssentialInts())
			for i := range a { // ours to write over
				a[i] = -1
			}
			a = append(a, 5)
			if ni > 0 {
				h, err := x.NthTxi(ni - 1)
				must(err)
				s += " " + sayTxi(h)
			}
			if no > 0 {
				h, err := x.NthTxo(no - 1)
				must(err)
				s += " " + sayTxo(h)
			}
			return s
		}
		sayAddr := func(a cri.IAddress) string {
			n, err := a.TxoCount()
			must(err)
			s := fmt.Sprintf("%x %d", a.Hash(), n)
			for i := int64(0); i < n; i++ {
				h, err := a.NthTxo(i)
				must(err)
				s += " " + sayTxo(h)
			}
			return s
		}
		one := func() {
			switch r.Intn(8) {
			case 0:
				h, err := v.Hc.BlockHandleByHeight(int64(r.Intn(len(c))))
				must(err)
				add("a block handle", func() string { return sayBlockHandle(h) })
				b, err := v.Bc.BlockInterface(h)
				must(err)
				add("a block", func() string { return sayBlock(b) })
				spoilMap(b.NonEssentialInts())
			case 1: // a walk
				h := v.Bc.GenesisBlock()
				for i := 0; i < len(c); i++ {
					g := h
					add("a block handle of a walk", func() string { return sayBlockHandle(g) })
					h, err = v.Bc.NextBlock(h)
					must(err)
				}
				add("the handle after the last block", func() string { return sayBlockHandle(h) })
			case 2:
				h, err := v.Hc.TransactionHandleByHeight(int64(r.Intn(len(m.Txs))))
				must(err)
				add("a transaction handle", func() string { return sayTransHandle(h) })
				x, err := v.Bc.TransInterface(h)
				must(err)
				add("a transaction", func() string { return sayTrans(x) })
				spoilMap(x.NonEssentialInts())
			case 3: // a walk
				h, err := v.Bc.GenesisTransaction()
				must(err)
				for i := 0; i < 40 && i < len(m.Txs); i++ {
					g := h
					add("a transaction handle of a walk", func() string { return sayTransHandle(g) })
					h, err = v.Bc.NextTransaction(h)
					must(err)
				}
			case 4:
				h, err := v.Hc.TxoHandleByHeight(int64(r.Intn(len(m.Txos))))
				must(err)
				add("an output handle", func() string { return sayTxo(h) })
				x, err := v.Bc.TxoInterface(h)
				must(err)
				add("an output", func() string {
					n, err := x.Satoshis()
					must(err)
					a, err := x.Address()
					must(err)
					return sayTxo(x) + fmt.Sprint(" ", n, " ", a.Height())
				})
				a, err := x.Address()
				must(err)
				add("the address handle of an output", func() string { return fmt.Sprint(a.HeightSpecified(), a.Height()) })
			case 5:
				if len(m.Txis) == 0 {
					return
				}
				h, err := v.Hc.TxiHandleByHeight(int64(r.Intn(len(m.Txis))))
				must(err)
				add("an input handle", func() string { return sayTxi(h) })
				x, err := v.Bc.TxiInterface(h)
				must(err)
				so, err := x.SourceTxo()
				must(err)
				add("the source of an input", func() string { return sayTxo(so) })
			case 6:
				o := m.Txos[r.Intn(len(m.Txos))]
				h := new(ih.Sha256)
				*h = ih.HashOfBytes(o.Script)
				ha, err := v.Hc.AddressHandleByHash(*h)
				must(err)
				a, err := v.Bc.AddressInterface(ha)
				must(err)
				add("an address", func() string { return sayAddr(a) })
			case 7:
				b, err := v.Bc.BlockInterface(v.Bc.GenesisBlock())
				must(err)
				add("the genesis block", func() string { return sayBlock(b) })
				l, err := v.Bc.LatestBlock()
				must(err)
				add("the latest block", func() string { return sayBlockHandle(l) })
				lt, err := v.Bc.LatestTransaction()
				must(err)
				add("the latest transaction", func() string { return sayTransHandle(lt) })
				add("the invalid handles", func() string { return sayBlockHandle(v.Bc.InvalidBlock()) + sayTransHandle(v.Bc.InvalidTrans()) })
			}
		}
		for n := 60; n > 0; n-- {
			one()
			for q := r.Intn(4); q > 0 && len(mem) > 0; q-- {
				x := mem[r.Intn(len(mem))]
				t.Evals(1)
				if s := x.say(); s != x.said {
					t.Fatalf("changed", "delegated %v: %s said %s when it was handed out, and now %s", delegated, x.what, x.said, s)
				}
			}
		}
		r.Shuffle(len(mem), func(i, j int) { mem[i], mem[j] = mem[j], mem[i] })
		for _, x := range mem {
			t.Evals(1)
			t.Count("kept_and_unchanged", 1)
			if s := x.say(); s != x.said {
				t.Fatalf("changed", "delegated %v: %s said %s when it was handed out, and now %s", delegated, x.what, x.said, s)
			}
		}
		store.Verify(t, "after all of that", m, v, store.Opts{BlockNeis: store.BlockNeis, TransNeis: store.TransNeis, Absent: 5, Addrs: 10})
		t.Distinct("view", delegated, len(c), k)
	}}
}

// parsing: the bytes belong to whoever read them, and are used again.
func parsing(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("parsing/%d", k), Run: func(t *kit.T) {
		r := t.R
		type parsed struct {
			b    *btc.Block
			p    *intrinsicobjects.Block
			json bool
		}
		var l []parsed
		var buf []byte
		for n := 3 + r.Intn(6); n > 0; n-- {
			b := btc.RandBlock(r, k%7 == 0)
			x := parsed{b, new(intrinsicobjects.Block), r.Intn(2) == 0}
			raw := b.Raw()
			if x.json {
				raw = b.JSON(btc.JSONOpts{})
			}
			buf = append(buf[:0], raw...) // one buffer for all
			was := string(buf)
			if x.json {
				t.NoErr(intrinsicobjects.ParseJsonBlock(buf, x.p), "parsing")
			} else {
				intrinsicobjects.ParseBinaryBlock(buf, x.p)
			}
			t.Evals(1)
			if string(buf) != was {
				t.Fatalf("input", "parsing (json %v) changed the bytes parsed", x.json)
			}
			r.Read(buf)
			l = append(l, x)
			t.Count("parsed", 1)
		}
		for i, x := range l {
			blockcmp.Compare(t, fmt.Sprintf("block %d (json %v) after its bytes were written over and others parsed", i, x.json), x.b, x.p, x.json)
		}
		t.Distinct("parsing", k)
	}}
}

// light things are cheap to make many of.
func light(name string) bool {
	return strings.HasPrefix(name, "words/") || strings.HasPrefix(name, "arrays/") || strings.HasPrefix(name, "file/")
}

func main() {
	kit.Main(kit.Prop{
		ID: "C32", Level: "exercised",
		Rule: "a hostile user of everything there is: hashes and bytes handed in are written over as soon as the call returns, lists, bytes, maps and objects " +
			"handed out are kept over later reads, appends, syncs and closes and must still say what they said, or are written over themselves, after which " +
			"the model must still be met. Passing means nothing handed over was shared in the lives seen.",
		Assumptions: []string{"the whole-file read of a mapped file shows the mapping itself, and is neither kept nor written over"},
		Workers:     8, MinEvals: 1000, CaseTimeout: 5 * time.Minute,
		Cases: func(tier string, seed int64) []kit.Case {
			n, reps := 24, 2
			if tier == "thorough" {
				n, reps = 600, 25
			}
			var cs []kit.Case
			for k := 0; k < reps; k++ {
				for _, s := range subjects.All() {
					if light(s.Name) {
						for i := 0; i < 8; i++ {
							cs = append(cs, life(s, 8*k+i))
						}
					} else if s.Name != "deep-cake" || k == 1 || (tier == "thorough" && k < 4) {
						cs = append(cs, life(s, k))
					}
				}
			}
			for i := 0; i < n; i++ {
				cs = append(cs, view(i), parsing(i))
			}
			return cs
		},
	})
}
