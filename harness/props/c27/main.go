// C27: synced blocks are on disk.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/store"
)

var blockNeis = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight", "version", "nonce"}
var transNeis = []string{"size", "vsize", "weight", "version", "locktime"}

func subset(t *kit.T, l []string) []string {
	var r []string
	for _, n := range l {
		if t.R.Intn(2) == 0 {
			r = append(r, n)
		}
	}
	return r
}

// kept checks that what the blocks of m say is in a store that has more, as far as each thing
// does not depend on what follows.
func kept(t *kit.T, what string, v store.View, m *store.Model) {
	fail := func(sig, f string, a ...any) { t.Fatalf(sig, "%s: %s", what, fmt.Sprintf(f, a...)) }
	for h, w := range m.Blocks {
		hb, err := v.Hc.BlockHandleByHeight(int64(h))
		t.NoErr(err, what)
		b, err := v.Bc.BlockInterface(hb)
		if err != nil {
			fail("kept-block", "block %d: %v", h, err)
		}
		hash, err := b.Hash()
		if err != nil || btc.Hash(hash) != w.Hash {
			fail("kept-block-hash", "hash of block %d is %s (%v), want %s", h, btc.Hash(hash).Hex(), err, w.Hash.Hex())
		}
		ht, err := b.NthTransaction(0)
		if err != nil || ht.Height() != int64(w.FirstTx) {
			fail("kept-first-trans", "first transaction of block %d: %v", h, err)
		}
		neis, err := b.NonEssentialInts()
		if err != nil {
			fail("kept-nei", "statistics of block %d: %v", h, err)
		}
		for k, g := range *neis {
			if g != w.Neis[k] {
				fail("kept-nei", "%s of block %d is %d, want %d", k, h, g, w.Neis[k])
			}
		}
		t.Evals(3)
	}
	for i, w := range m.Txs {
		ht, err := v.Hc.TransactionHandleByHeight(int64(i))
		t.NoErr(err, what)
		x, err := v.Bc.TransInterface(ht)
		if err != nil {
			fail("kept-trans", "transaction %d: %v", i, err)
		}
		neis, err := x.NonEssentialInts()
		if err != nil {
			fail("kept-nei", "statistics of transaction %d: %v", i, err)
		}
		for k, g := range *neis {
			if g != w.Neis[k] {
				fail("kept-nei", "%s of transaction %d is %d, want %d", k, i, g, w.Neis[k])
			}
		}
		if i+1 < len(m.Txs) {
			n, err := x.TxiCount()
			if err != nil || n != int64(w.NTxi) {
				fail("kept-txis", "transaction %d has %d inputs (%v), want %d", i, n, err, w.NTxi)
			}
			n, err = x.TxoCount()
			if err != nil || n != int64(w.NTxo) {
				fail("kept-txos", "transaction %d has %d outputs (%v), want %d", i, n, err, w.NTxo)
			}
		}
		if v.Par != nil {
			p, err := v.Par.ParentBlockOfTrans(int64(i))
			if err != nil || p != int64(w.Block) {
				fail("kept-parent", "block of transaction %d is %d (%v), want %d", i, p, err, w.Block)
			}
		}
		t.Evals(4)
	}
	for i, w := range m.Txis {
		ht, err := v.Hc.TxiHandleByHeight(int64(i))
		t.NoErr(err, what)
		x, err := v.Bc.TxiInterface(ht)
		if err != nil {
			fail("kept-txi", "input %d: %v", i, err)
		}
		src, err := x.SourceTxo()
		if err != nil || src.ParentTrans().Height() != int64(w.Src) || src.ParentIndex() != w.Vout {
			fail("kept-txi", "source of input %d: %v", i, err)
		}
		if v.Par != nil {
			p, err := v.Par.ParentTransOfTxi(int64(i))
			if err != nil || p != int64(w.Tx) {
				fail("kept-parent", "transaction of input %d is %d (%v), want %d", i, p, err, w.Tx)
			}
		}
		t.Evals(2)
	}
	for i, w := range m.Txos {
		ht, err := v.Hc.TxoHandleByHeight(int64(i))
		t.NoErr(err, what)
		x, err := v.Bc.TxoInterface(ht)
		if err != nil {
			fail("kept-txo", "output %d: %v", i, err)
		}
		s, err := x.Satoshis()
		if err != nil || s != w.Sats {
			fail("kept-txo", "satoshis of output %d are %d (%v), want %d", i, s, err, w.Sats)
		}
		ha, err := x.Address()
		if err != nil || ha.Height() != int64(w.Addr) {
			fail("kept-txo", "address of output %d: %v", i, err)
		}
		if v.Par != nil {
			p, err := v.Par.ParentTransOfTxo(int64(i))
			if err != nil || p != int64(w.Tx) {
				fail("kept-parent", "transaction of output %d is %d (%v), want %d", i, p, err, w.Tx)
			}
		}
		t.Evals(3)
	}
	n := 0
	for h, want := range m.AddrTxos {
		if n++; n > 25 {
			break
		}
		ha, err := v.Hc.AddressHandleByHeight(int64(h))
		t.NoErr(err, what)
		a, err := v.Bc.AddressInterface(ha)
		if err != nil {
			fail("kept-address", "address %d: %v", h, err)
		}
		for k, o := range want {
			ht, err := a.NthTxo(int64(k))
			if err != nil {
				fail("kept-address", "output %d of address %d: %v", k, h, err)
			}
			x, err := v.Bc.TxoInterface(ht)
			if err != nil || x.TxoHeight() != int64(o) {
				fail("kept-address", "output %d of address %d: %v", k, h, err)
			}
			t.Evals(1)
		}
	}
	t.Count("later_copies_compared", 1)
}

// synced: the main part of a store.
func synced(k, runs, blocks int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("store/%02d", k), Run: func(t *kit.T) {
		for run := 0; run < runs; run++ {
			useChi, delegated := t.R.Intn(2) == 0, t.R.Intn(2) == 0
			co := btc.RandChainOpts(t.R, 2+t.R.Intn(blocks))
			co.Dups = co.Dups && delegated
			chain := btc.Chain(t.R, co)
			m := store.NewModel(chain, len(chain))
			src := store.RandSource(t.R, m, delegated)
			o := store.Opts{BlockNeis: subset(t, blockNeis), TransNeis: subset(t, transNeis), Absent: 3, Addrs: 40}
			what := fmt.Sprintf("%d blocks, %d transactions, chi %v, delegated %v, %s", len(chain), len(m.Txs), useChi, delegated, src)
			t.Sample("%s", what)
			dir := t.SubDir(fmt.Sprintf("s%d", run))
			t.NoErr(store.GatherHashes(dir, src, t.R.Intn(2) == 0, len(m.Blocks)), what+" gather hashes")
			t.NoErr(store.Index(dir, t.R.Intn(2) == 0, 1+t.R.Intn(4), m), what+" index")
			acc, err := store.Creator(dir, delegated, o.BlockNeis, o.TransNeis)
			t.NoErr(err, what+" creator")
			t.NoErr(acc.CreateFromHashStores(), what+" CreateFromHashStores")
			w, err := store.Open(acc, src, useChi, delegated)
			t.NoErr(err, what+" open")
			told, done, last, copies := 0, 0, -1, 0
			often := 1 + t.R.Intn(8)
			for done < len(chain) {
				// those who fetch tell the indexer ahead of the appending
				ahead := 0
				if t.R.Intn(2) == 0 {
					ahead = t.R.Intn(5)
				}
				for told < len(chain) && told <= done+ahead {
					t.NoErr(w.Tell(told), what+" indexer")
					told++
				}
				t.NoErr(w.Append(done), fmt.Sprintf("%s: append block %d", what, done))
				done++
				if t.R.Intn(often) == 0 || done == len(chain) {
					t.NoErr(w.Ac.Sync(), what+" Sync")
					last = done
				} else if last < 0 || t.R.Intn(6) != 0 {
					continue
				}
				// crash: the folder as it is now
				to := t.SubDir("crashed")
				kit.Must(os.RemoveAll(to))
				kit.Must(store.CopyDir(dir, to))
				copies++
				at := fmt.Sprintf("%s: copied after appending block %d (synced after block %d, indexer told of %d)", what, done-1, last-1, told)
				if last < done {
					v, err := store.OpenReadOnly(to, delegated, false, true)
					t.NoErr(err, at+" OpenReadOnly")
					kept(t, at, v, store.NewModel(chain, last))
					t.Distinct("later", done-last, useChi, delegated)
					continue
				}
				part := store.NewModel(chain, done)
				v, err := store.OpenReadOnly(to, delegated, false, t.R.Intn(2) == 0)
				t.NoErr(err, at+" OpenReadOnly")
				store.Verify(t, at, part, v, o)
				t.Count("synced_copies", 1)
				t.Distinct("synced", done, told-done, useChi, delegated)
				if t.R.Intn(3) == 0 { // go on from the copy
					acc, err := store.Creator(to, delegated, o.BlockNeis, o.TransNeis)
					t.NoErr(err, at+" creator")
					w2, err := store.Open(acc, src, useChi, delegated)
					t.NoErr(err, at+" open the copy")
					for h := done; h < len(chain); h++ {
						t.NoErr(w2.Block(h), fmt.Sprintf("%s: append block %d to the copy", at, h))
					}
					w2.Ac.Close()
					v, err := store.OpenReadOnly(to, delegated, false, true)
					t.NoErr(err, at+" OpenReadOnly of the continued copy")
					store.Verify(t, at+", continued", m, v, o)
					t.Count("copies_continued", 1)
				}
			}
			w.Ac.Close()
			v, err := store.OpenReadOnly(dir, delegated, false, true)
			t.NoErr(err, what+" OpenReadOnly")
			store.Verify(t, what+", closed", m, v, o)
			t.CountMax("copies_of_one_store", int64(copies))
			kit.Must(os.RemoveAll(dir))
		}
	}}
}

// hashes: the lists of hashes of the first phase.
func hashes(k, runs, blocks int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("hashes/%02d", k), Run: func(t *kit.T) {
		for run := 0; run < runs; run++ {
			chain := btc.Chain(t.R, btc.RandChainOpts(t.R, 2+t.R.Intn(blocks)))
			m := store.NewModel(chain, len(chain))
			src := store.RandSource(t.R, m, false)
			what := fmt.Sprintf("hashes of %d blocks, %d transactions", len(chain), len(m.Txs))
			dir := t.SubDir(fmt.Sprintf("h%d", run))
			lists := func(at, d string, h int, prefix bool) {
				part := store.NewModel(chain, h)
				for _, l := range []struct {
					name string
					want []btc.Hash
				}{{"Blocks", part.BlkHashes}, {"Transactions", part.TrnHashes}, {"Addresses", part.AddrHashes}} {
					got, err := os.ReadFile(filepath.Join(d, l.name, "Hashes", "Hashes.hsh"))
					t.NoErr(err, at)
					var want []byte
					for _, x := range l.want {
						want = append(want, x[:]...)
					}
					t.Evals(int64(len(l.want)))
					if prefix && len(got) > len(want) {
						got = got[:len(want)]
					}
					if !bytes.Equal(got, want) {
						t.Fatalf("hash-list", "%s: the list of %s has %d bytes, and differs from the %d wanted", at, l.name, len(got), len(want))
					}
				}
			}
			hcc := chainstorage.NewConcreteHashesChainCreator(dir)
			t.NoErr(hcc.Create(), "Create")
			hc, err := hcc.Open()
			t.NoErr(err, "Open")
			last := 0
			for h := range chain {
				if t.R.Intn(2) == 0 {
					err = hc.AppendHashesChi(store.Chi{Source: src}, store.Chi{Source: src}.Block(h))
				} else {
					err = hc.AppendHashesCri(store.Cri{Source: src}, store.Cri{Source: src}.Block(h), int64(h))
				}
				t.NoErr(err, fmt.Sprintf("%s: append block %d", what, h))
				at := fmt.Sprintf("%s: after block %d", what, h)
				switch t.R.Intn(6) {
				case 0:
					t.NoErr(hc.Sync(), "Sync")
					last = h + 1
					lists(at+" and a sync", dir, last, false)
					t.Count("hash_lists_synced", 1)
				case 1:
					hc.Close()
					last = h + 1
					lists(at+" and a close", dir, last, false)
					hcc = chainstorage.NewConcreteHashesChainCreator(dir)
					hc, err = hcc.Open()
					t.NoErr(err, at+": reopen")
					t.Count("hash_lists_reopened", 1)
				case 2:
					lists(at+fmt.Sprintf(", synced after block %d", last-1), dir, last, true)
				}
				nb, nt, na, err := hc.CountHashes()
				t.NoErr(err, "CountHashes")
				part := store.NewModel(chain, h+1)
				t.Evals(1)
				if nb != int64(len(part.BlkHashes)) || nt != int64(len(part.TrnHashes)) || na != int64(len(part.AddrHashes)) {
					t.Fatalf("hash-counts", "%s: counts are %d, %d, %d", at, nb, nt, na)
				}
				t.Distinct("hashes", h, last, len(m.Txs))
			}
			hc.Close()
			lists(what+" at the end", dir, len(chain), false)
			kit.Must(os.RemoveAll(dir))
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:    "C27",
		Level: "exploration",
		Rule: "chains are appended to stores (both interfaces, both ways of indexing, the indexer told of up to 5 blocks ahead) with syncs at random blocks; after each sync the folder is copied as a crash would leave it, the copy opened with fresh objects and compared in full with the model of the blocks so far, and now and then appended to until the end; " +
			"copies at later moments must still have everything of the synced blocks that does not depend on what follows. The lists of hashes are read from disk after syncs, closes and reopens. Distinct: moments of copies by configuration",
		Assumptions: []string{"a crash leaves the files as the operating system shows them (no loss of power)"},
		Cases: func(tier string, seed int64) []kit.Case {
			n, runs, blocks := 12, 2, 30
			if tier == "thorough" {
				n, runs, blocks = 48, 24, 120
			}
			var cs []kit.Case
			for k := 0; k < n; k++ {
				cs = append(cs, synced(k, runs, blocks), hashes(k, runs*3, blocks))
			}
			return cs
		},
		MinEvals: 10000,
	})
}
