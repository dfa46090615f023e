// C30: a stored chain is a source to copy from, and a copy is as good as the original.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"time"

	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/store"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/tinychain"
)

type way struct{ delegated, adaptive, stats bool }

func (w way) String() string {
	return fmt.Sprintf("delegated %v, adaptive %v, statistics %v", w.delegated, w.adaptive, w.stats)
}

func draw(r *rand.Rand) way {
	return way{r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(4) != 0}
}

func (w way) neis() (b, t []string) {
	if w.stats {
		return store.BlockNeis, store.TransNeis
	}
	return nil, nil
}

// resolved is a chain whose outputs say the hash of their address, which is what an appender
// asks of its source; a stored chain gives the height of the address, and the hash on request.
type resolved struct {
	chainreadinterface.IBlockChain
	seen map[int64]ih.Sha256 // asking for an address reads a whole file
}

type rTxo struct {
	chainreadinterface.ITxo
	c resolved
}

type rAddr struct{ hash ih.Sha256 }

func (a rAddr) Height() int64         { return -1 }
func (a rAddr) HeightSpecified() bool { return false }
func (a rAddr) Hash() ih.Sha256       { return a.hash }
func (a rAddr) HashSpecified() bool   { return true }

func (c resolved) TxoInterface(h chainreadinterface.ITxoHandle) (chainreadinterface.ITxo, error) {
	x, err := c.IBlockChain.TxoInterface(h)
	return rTxo{x, c}, err
}

func (x rTxo) Address() (chainreadinterface.IAddressHandle, error) {
	h, err := x.ITxo.Address()
	if err != nil {
		// the tiny chain has none, nor has a handle of its outputs
		s, err := x.Satoshis()
		return rAddr{ih.Sha256{1, byte(s), byte(s >> 8)}}, err
	}
	if h.HashSpecified() {
		return h, nil
	}
	hash, ok := x.c.seen[h.Height()]
	if !ok {
		a, err := x.c.AddressInterface(h)
		if err != nil {
			return nil, err
		}
		hash = a.Hash()
		x.c.seen[h.Height()] = hash
	}
	return rAddr{hash}, nil
}

type rAddress struct {
	rAddr
	chainreadinterface.IAddress
}

func (a rAddress) Height() int64         { return a.rAddr.Height() }
func (a rAddress) HeightSpecified() bool { return a.rAddr.HeightSpecified() }
func (a rAddress) Hash() ih.Sha256       { return a.rAddr.Hash() }
func (a rAddress) HashSpecified() bool   { return a.rAddr.HashSpecified() }

func (c resolved) AddressInterface(h chainreadinterface.IAddressHandle) (chainreadinterface.IAddress, error) {
	if a, ok := h.(rAddr); ok {
		return rAddress{a, nil}, nil
	}
	return c.IBlockChain.AddressInterface(h)
}

// handles lists the blocks of a chain, as it is walked.
func handles(bc chainreadinterface.IBlockChain) (l []chainreadinterface.IBlockHandle, err error) {
	for h := bc.GenesisBlock(); !h.IsInvalid(); {
		l = append(l, h)
		if h, err = bc.NextBlock(h); err != nil {
			return nil, err
		}
		if len(l) > 1<<20 {
			return nil, errors.New("the walk through the blocks does not end")
		}
	}
	return l, nil
}

// lists gathers the hashes of a chain in a folder.
func lists(dir string, bc chainreadinterface.IBlockChain, hs []chainreadinterface.IBlockHandle) error {
	hcc := chainstorage.NewConcreteHashesChainCreator(dir)
	if err := hcc.Create(); err != nil {
		return err
	}
	hc, err := hcc.Open()
	if err != nil {
		return err
	}
	defer hc.Close()
	for i, h := range hs {
		if err = hc.AppendHashesCri(bc, h, int64(i)); err != nil {
			return err
		}
	}
	return hc.Sync()
}

// copyOf makes a store of a chain, in as many sessions as it takes.
func copyOf(t *kit.T, dir string, bc chainreadinterface.IBlockChain, w way, n *store.Model) error {
	r := t.R
	hs, err := handles(bc)
	if err != nil {
		return err
	}
	if err = lists(dir, bc, hs); err != nil {
		return fmt.Errorf("gathering the hashes: %w", err)
	}
	if err = store.Index(dir, w.adaptive, 1+r.Intn(4), n); err != nil {
		return fmt.Errorf("indexing: %w", err)
	}
	b, tr := w.neis()
	acc, err := chainstorage.NewConcreteAppendableChainCreator(dir, b, tr, w.delegated, false, r.Intn(2) == 0)
	if err != nil {
		return err
	}
	if err = acc.CreateFromHashStores(); err != nil {
		return err
	}
	for at := 0; at < len(hs); {
		end := len(hs)
		if r.Intn(2) == 0 {
			end = at + 1 + r.Intn(len(hs)-at)
		}
		var ac chainstorage.IAppendableChain
		if w.delegated {
			c, ind, err := acc.OpenWithIndexer()
			if err != nil {
				return err
			}
			ac = c
			first := int64(-1)
			for i := at; i < end; i++ { // what a delegate has to tell
				blk, err := bc.BlockInterface(hs[i])
				if err != nil {
					return err
				}
				cnt, err := blk.TransactionCount()
				if err != nil {
					return err
				}
				for k := int64(0); k < cnt; k++ {
					ht, err := blk.NthTransaction(k)
					if err != nil {
						return err
					}
					if !ht.HeightSpecified() {
						return errors.New("a transaction of a stored chain has no height")
					}
					if k == 0 {
						first = ht.Height()
						if err = ind.StoreBlockHeightToFirstTrans(int64(i), first); err != nil {
							return err
						}
					}
					if err = ind.StoreTransHeightToParentBlock(first+k, int64(i)); err != nil {
						return err
					}
				}
				if err = c.AppendBlock(bc, hs[i]); err != nil {
					return err
				}
			}
		} else {
			if ac, err = acc.Open(); err != nil {
				return err
			}
			for i := at; i < end; i++ {
				if err = ac.AppendBlock(bc, hs[i]); err != nil {
					return err
				}
			}
		}
		if err = ac.Sync(); err != nil {
			return err
		}
		ac.Close()
		at = end
		t.Count("sessions", 1)
	}
	return nil
}

func generations(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("generations/%d", k), Timeout: 5 * time.Minute, Run: func(t *kit.T) {
		r := t.R
		n := 3 + r.Intn(20)
		if t.Thorough() && k%4 == 0 {
			n = 100 + r.Intn(100)
		}
		co := btc.RandChainOpts(r, n)
		co.Dups, co.Flood, co.Giant = false, 0, 0
		if co.Wide = k%3 == 0; co.Wide {
			co.Pool, co.Blocks, n = 1+r.Intn(8), 3+r.Intn(8), 3
			co.OneAddr = r.Intn(2) == 0
		}
		chain := btc.Chain(r, co)
		m := store.NewModel(chain, len(chain))
		w := draw(r)
		w.stats = true
		dir := t.SubDir("g0")
		src := store.RandSource(r, m, w.delegated)
		t.NoErr(store.GatherHashes(dir, src, true, len(chain)), "gathering")
		t.NoErr(store.Index(dir, w.adaptive, 2, m), "indexing")
		acc, err := store.Creator(dir, w.delegated, store.BlockNeis, store.TransNeis)
		t.NoErr(err, "creator")
		t.NoErr(acc.CreateFromHashStores(), "creating")
		wr, err := store.Open(acc, src, true, w.delegated)
		t.NoErr(err, "opening")
		for h := range chain {
			t.NoErr(wr.Block(h), "appending")
		}
		wr.Ac.Close()

		line := []string{fmt.Sprintf("original: %d blocks, %d transactions, %v", len(chain), len(m.Txs), w)}
		was := w
		trees := map[way]map[string]string{}
		gens := 3
		if n > 50 {
			gens = 1
		}
		for g := 1; g <= gens; g++ {
			how := r.Intn(3)
			var v store.View
			if how == 2 {
				v, err = store.OpenRam(dir, was.delegated)
			} else {
				v, err = store.OpenReadOnly(dir, was.delegated, false, how == 1)
			}
			t.NoErr(err, "opening read only")
			now := draw(r)
			if !was.stats {
				now.stats = false // they are lost for good
			}
			line = append(line, fmt.Sprintf("copied from a view (mode %d): %v", how, now))
			d := t.SubDir(fmt.Sprintf("g%d", g))
			t.Evals(1)
			var cerr error
			if p := kit.Panics(func() { cerr = copyOf(t, d, resolved{v.Bc, map[int64]ih.Sha256{}}, now, m) }); p != "" || cerr != nil {
				t.Fatalf("copy", "%v: %v %s", line, cerr, p)
			}
			b, tr := now.neis()
			store.VerifyAll(t, fmt.Sprint(line), d, m, store.Opts{BlockNeis: b, TransNeis: tr, Absent: 8, Addrs: 15}, now.delegated, g == gens)
			// made the same way, from whatever, it has the same bytes
			tree := store.Tree(d)
			if old := trees[now]; old != nil && !now.adaptive {
				t.Evals(int64(len(old)))
				if x := store.DiffTrees(old, tree, nil); x != "" {
					t.Fatalf("bytes", "%v: not the bytes of an earlier generation made the same way: %s", line, x)
				}
				t.Count("generations_with_equal_bytes", 1)
			}
			trees[now] = tree
			t.Count("generations", 1)
			t.Distinct(was, now, how)
			dir, was = d, now
		}
		t.Sample("%v", line)
	}}
}

// same walks two chains and compares what they say.
func same(t *kit.T, what string, a, b chainreadinterface.IBlockChain) {
	n := int64(0)
	eq := func(sig, f string, x, y interface{}) {
		n++
		if x != y {
			t.Fatalf(sig, "%s: %s is %v, want %v", what, f, y, x)
		}
	}
	ha, err := handles(a)
	t.NoErr(err, what)
	hb, err := handles(b)
	t.NoErr(err, what)
	eq("blocks", "the number of blocks", len(ha), len(hb))
	la, err := a.LatestBlock()
	t.NoErr(err, what)
	lb, err := b.LatestBlock()
	t.NoErr(err, what)
	eq("latest", "the latest block", la.Height(), lb.Height())
	eq("latest", "the latest block", la.Height(), int64(len(ha)-1))
	tx := int64(0)
	for i := range ha {
		f := fmt.Sprintf("of block %d", i)
		ba, err := a.BlockInterface(ha[i])
		t.NoErr(err, what)
		bb, err := b.BlockInterface(hb[i])
		t.NoErr(err, what)
		eq("height", "the height "+f, int64(i), bb.Height())
		x, err := ba.Hash()
		t.NoErr(err, what)
		y, err := bb.Hash()
		t.NoErr(err, what)
		eq("block-hash", "the hash "+f, x, y)
		eq("parent", "the parent "+f, a.ParentBlock(ba).Height(), b.ParentBlock(bb).Height())
		na, err := ba.TransactionCount()
		t.NoErr(err, what)
		nb, err := bb.TransactionCount()
		t.NoErr(err, what)
		eq("count", "the number of transactions "+f, na, nb)
		for k := int64(0); k < na; k++ {
			f := fmt.Sprintf("of transaction %d %s", k, f)
			xa, err := ba.NthTransaction(k)
			t.NoErr(err, what)
			xb, err := bb.NthTransaction(k)
			t.NoErr(err, what)
			eq("trans-height", "the height "+f, xa.Height(), xb.Height())
			eq("trans-height", "the height "+f, tx, xb.Height())
			ta, err := a.TransInterface(xa)
			t.NoErr(err, what)
			tb, err := b.TransInterface(xb)
			t.NoErr(err, what)
			x, err := ta.Hash()
			t.NoErr(err, what)
			y, err := tb.Hash()
			t.NoErr(err, what)
			eq("trans-hash", "the hash "+f, x, y)
			if pa, pb := a.PreviousTransaction(xa), b.PreviousTransaction(xb); true {
				eq("previous", "the transaction before that "+f, pa.Height(), pb.Height())
			}
			pa, err := a.NextTransaction(xa)
			t.NoErr(err, what)
			pb, err := b.NextTransaction(xb)
			t.NoErr(err, what)
			eq("next", "the transaction after that "+f, pa.Height(), pb.Height())
			ia, err := ta.TxiCount()
			t.NoErr(err, what)
			ib, err := tb.TxiCount()
			t.NoErr(err, what)
			eq("inputs", "the number of inputs "+f, ia, ib)
			for q := int64(0); q < ia; q++ {
				sa, sb := source(t, what, a, ta, q), source(t, what, b, tb, q)
				eq("source", fmt.Sprintf("the source of input %d %s", q, f), sa, sb)
			}
			oa, err := ta.TxoCount()
			t.NoErr(err, what)
			ob, err := tb.TxoCount()
			t.NoErr(err, what)
			eq("outputs", "the number of outputs "+f, oa, ob)
			for q := int64(0); q < oa; q++ {
				sa, sb := sats(t, what, a, ta, q), sats(t, what, b, tb, q)
				eq("sats", fmt.Sprintf("the amount of output %d %s", q, f), sa, sb)
			}
			tx++
		}
	}
	t.Evals(n)
	t.Count("tiny_blocks_compared", int64(len(ha)))
}

func source(t *kit.T, what string, bc chainreadinterface.IBlockChain, tr chainreadinterface.ITransaction, k int64) string {
	h, err := tr.NthTxi(k)
	t.NoErr(err, what)
	x, err := bc.TxiInterface(h)
	t.NoErr(err, what)
	o, err := x.SourceTxo()
	t.NoErr(err, what)
	return fmt.Sprint(o.ParentTrans().Height(), ":", o.ParentIndex())
}

func sats(t *kit.T, what string, bc chainreadinterface.IBlockChain, tr chainreadinterface.ITransaction, k int64) int64 {
	h, err := tr.NthTxo(k)
	t.NoErr(err, what)
	x, err := bc.TxoInterface(h)
	t.NoErr(err, what)
	s, err := x.Satoshis()
	t.NoErr(err, what)
	return s
}

func tiny(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("tiny/%d", k), Run: func(t *kit.T) {
		r := t.R
		m := &store.Model{}
		var bc chainreadinterface.IBlockChain = tinychain.TheTinyChain
		for g := 0; g < 3; g++ {
			w := draw(r)
			w.stats = false
			d := t.SubDir(fmt.Sprintf("t%d", g))
			var cerr error
			if p := kit.Panics(func() { cerr = copyOf(t, d, resolved{bc, map[int64]ih.Sha256{}}, w, m) }); p != "" || cerr != nil {
				t.Fatalf("copy", "tiny chain, generation %d: %v %s", g, cerr, p)
			}
			v, err := store.OpenReadOnly(d, w.delegated, false, r.Intn(2) == 0)
			t.NoErr(err, "opening")
			same(t, fmt.Sprintf("copy %d of the tiny chain, %v", g, w), tinychain.TheTinyChain, v.Bc)
			bc = v.Bc
			t.Distinct("tiny", w)
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID: "C30", Level: "exercised", MinEvals: 20000, CaseTimeout: 5 * time.Minute,
		Rule: "random chains are stored; the read-only view of the store is walked as a chain and copied into a new store (other mode, other index, other sessions), that into a third, and so on; every generation is compared with the model over every route, and with generations made the same way byte by byte; the tiny chain likewise, compared by walking. Distinct: (mode copied from, mode copied to, kind of view)",
		Assumptions: []string{"no two transactions of the chain have one hash (the stored list has the later one at its first position)",
			"the Chi interface is not offered by a stored chain"},
		Cases: func(tier string, seed int64) []kit.Case {
			n := 18
			if tier == "thorough" {
				n = 300
			}
			var cs []kit.Case
			for k := 0; k < n; k++ {
				cs = append(cs, generations(k))
				if k%4 == 0 {
					cs = append(cs, tiny(k))
				}
			}
			return cs
		},
	})
}
