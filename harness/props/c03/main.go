// C03: the cross links of a stored chain agree with each other.
package main

import (
	"fmt"
	"os"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/store"
)

type audit struct {
	t    *kit.T
	what string
	v    store.View
	r    *store.View
}

func (a *audit) bad(sig, f string, args ...interface{}) {
	a.t.Fatalf(sig, "%s: %s", a.what, fmt.Sprintf(f, args...))
}
func (a *audit) ok(err error, f string, args ...interface{}) {
	if err != nil {
		a.t.Fatalf("error", "%s: %s: %v", a.what, fmt.Sprintf(f, args...), err)
	}
}
func (a *audit) file(name string, f wordfile.ReadAtWordCounter) []int64 {
	n, err := f.CountWords()
	a.ok(err, "count of the %s file", name)
	w := make([]int64, n)
	for i := range w {
		w[i], err = f.ReadWordAt(int64(i))
		a.ok(err, "word %d of the %s file", i, name)
	}
	return w
}

// totals of the chain that was appended, from nothing but the blocks.
type totals struct{ blocks, txs, txis, txos, sats, spent int64 }

func count(chain []*btc.Block) (s totals) {
	vals := map[btc.Hash][]int64{}
	for _, b := range chain {
		s.blocks++
		for i, t := range b.Txs {
			s.txs++
			if i > 0 {
				for _, in := range t.Ins {
					s.txis++
					s.spent += vals[in.Prev][in.Vout]
				}
			}
			id := t.ID()
			for _, o := range t.Outs {
				s.txos++
				s.sats += o.Value
				vals[id] = append(vals[id], o.Value)
			}
		}
	}
	return s
}

// links looks only at the store: nothing but its own answers is held against it, and the totals at the end.
// lists is about how many address lists are read (each costs reading a file).
func links(t *kit.T, what string, v store.View, want totals, lists int) {
	a := &audit{t: t, what: what, v: v}
	sats := a.file("satoshis", v.Pf.TxoSatsFile())
	txiTx := a.file("source transaction", v.Pf.TxiTxFile())
	vout := a.file("source index", v.Pf.TxiVoutFile())
	fi := a.file("first input", v.Pf.TransFirstTxiFile())
	fo := a.file("first output", v.Pf.TransFirstTxoFile())
	if len(fi) != len(fo) {
		a.bad("partition", "%d transactions by their inputs, %d by their outputs", len(fi), len(fo))
	}
	if len(txiTx) != len(vout) {
		a.bad("partition", "%d source transactions of inputs, but %d source indexes", len(txiTx), len(vout))
	}
	nt := len(fo)
	// the first positions partition the inputs and outputs
	parts := func(kind string, first []int64, n int) {
		last := int64(0)
		for i, f := range first {
			t.Evals(1)
			if i == 0 && f != 0 || f < last || f > int64(n) {
				a.bad("partition", "the first %s of transaction %d of %d is %d (of %d), after %d", kind, i, nt, f, n, last)
			}
			last = f
		}
	}
	parts("input", fi, len(txiTx))
	parts("output", fo, len(sats))
	end := func(first []int64, i, n int) int64 {
		if i+1 < len(first) {
			return first[i+1]
		}
		return int64(n)
	}
	// blocks partition the transactions, and are the parents of theirs
	got := totals{txs: int64(nt), txis: int64(len(txiTx)), txos: int64(len(sats))}
	next := int64(0)
	hb := v.Bc.GenesisBlock()
	for !hb.IsInvalid() {
		b, err := v.Bc.BlockInterface(hb)
		a.ok(err, "block %d", got.blocks)
		if b.Height() != got.blocks {
			a.bad("walk", "the block after %d is %d", got.blocks-1, b.Height())
		}
		n, err := b.TransactionCount()
		a.ok(err, "transaction count of block %d", b.Height())
		if n < 1 {
			a.bad("partition", "block %d has %d transactions", b.Height(), n)
		}
		for k := int64(0); k < n; k++ {
			ht, err := b.NthTransaction(k)
			a.ok(err, "transaction %d of block %d", k, b.Height())
			p, err := v.Par.ParentBlockOfTrans(ht.Height())
			a.ok(err, "parent of transaction %d", ht.Height())
			t.Evals(1)
			if ht.Height() != next || p != b.Height() {
				a.bad("parent-of-transaction", "transaction %d of block %d is number %d (want %d), whose parent is block %d", k, b.Height(), ht.Height(), next, p)
			}
			next++
		}
		got.blocks++
		hb, err = v.Bc.NextBlock(hb)
		a.ok(err, "block after %d", b.Height())
	}
	if next != int64(nt) {
		a.bad("partition", "the blocks hold %d transactions, %d are stored", next, nt)
	}
	// transactions are the parents of their inputs and outputs
	ht, err := v.Bc.GenesisTransaction()
	a.ok(err, "genesis transaction")
	for i := 0; i < nt; i++ {
		if ht.IsInvalid() || ht.Height() != int64(i) {
			a.bad("walk", "walking transactions gives %d as number %d of %d", ht.Height(), i, nt)
		}
		x, err := v.Bc.TransInterface(ht)
		a.ok(err, "transaction %d", i)
		ni, err := x.TxiCount()
		a.ok(err, "input count of transaction %d", i)
		no, err := x.TxoCount()
		a.ok(err, "output count of transaction %d", i)
		if ni != end(fi, i, len(txiTx))-fi[i] || no != end(fo, i, len(sats))-fo[i] {
			a.bad("partition", "transaction %d says %d inputs and %d outputs, its positions %d and %d", i, ni, no, end(fi, i, len(txiTx))-fi[i], end(fo, i, len(sats))-fo[i])
		}
		for k := int64(0); k < ni; k++ {
			p, err := v.Par.ParentTransOfTxi(fi[i] + k)
			a.ok(err, "parent of input %d", fi[i]+k)
			h, err := x.NthTxi(k)
			a.ok(err, "input %d of transaction %d", k, i)
			t.Evals(1)
			if p != int64(i) || h.TxiHeight() != fi[i]+k {
				a.bad("parent-of-input", "input %d of transaction %d is %d (want %d), whose parent is transaction %d", k, i, h.TxiHeight(), fi[i]+k, p)
			}
		}
		for k := int64(0); k < no; k++ {
			p, err := v.Par.ParentTransOfTxo(fo[i] + k)
			a.ok(err, "parent of output %d", fo[i]+k)
			h, err := x.NthTxo(k)
			a.ok(err, "output %d of transaction %d", k, i)
			t.Evals(1)
			if p != int64(i) || h.TxoHeight() != fo[i]+k {
				a.bad("parent-of-output", "output %d of transaction %d is %d (want %d), whose parent is transaction %d", k, i, h.TxoHeight(), fo[i]+k, p)
			}
		}
		ht, err = v.Bc.NextTransaction(ht)
		a.ok(err, "transaction after %d", i)
	}
	if !ht.IsInvalid() {
		a.bad("walk", "there is a transaction after the last")
	}
	// inputs spend an output of an earlier (or the same block's earlier) transaction, no output twice
	spender := map[int64]int{}
	for i := range txiTx {
		src := txiTx[i]
		if src < 0 || src >= int64(nt) {
			a.bad("source", "input %d spends an output of transaction %d of %d", i, src, nt)
		}
		p, err := v.Par.ParentTransOfTxi(int64(i))
		a.ok(err, "parent of input %d", i)
		o := fo[src] + vout[i]
		if src >= p || vout[i] < 0 || o >= end(fo, int(src), len(sats)) {
			a.bad("source", "input %d of transaction %d spends output %d of transaction %d, which has %d", i, p, vout[i], src, end(fo, int(src), len(sats))-fo[src])
		}
		hi, err := v.Hc.TxiHandleByHeight(int64(i))
		a.ok(err, "handle of input %d", i)
		x, err := v.Bc.TxiInterface(hi)
		a.ok(err, "input %d", i)
		ho, err := x.SourceTxo()
		a.ok(err, "source of input %d", i)
		out, err := v.Bc.TxoInterface(ho)
		a.ok(err, "output spent by input %d", i)
		t.Evals(1)
		if out.TxoHeight() != o {
			a.bad("source", "input %d spends output %d by its files and %d by the chain", i, o, out.TxoHeight())
		}
		if j, twice := spender[o]; twice {
			a.bad("spent-twice", "output %d is spent by inputs %d and %d", o, j, i)
		}
		spender[o] = i
		got.spent += sats[o]
	}
	// outputs and their addresses
	byAddr := map[int64][]int64{}
	for i := range sats {
		h, err := v.Hc.TxoHandleByHeight(int64(i))
		a.ok(err, "handle of output %d", i)
		x, err := v.Bc.TxoInterface(h)
		a.ok(err, "output %d", i)
		s, err := x.Satoshis()
		a.ok(err, "satoshis of output %d", i)
		if s != sats[i] {
			a.bad("satoshis", "output %d has %d satoshis in the file, %d in the chain", i, sats[i], s)
		}
		got.sats += s
		ad, err := x.Address()
		a.ok(err, "address of output %d", i)
		byAddr[ad.Height()] = append(byAddr[ad.Height()], int64(i))
	}
	var multi, single []int64
	for i := range sats {
		switch n := len(byAddr[int64(i)]); {
		case n > 1:
			multi = append(multi, int64(i))
		case n == 1:
			single = append(single, int64(i))
		}
	}
	check := func(h int64, ad chainreadinterface.IAddress) {
		l := byAddr[h]
		n, err := ad.TxoCount()
		a.ok(err, "number of outputs of address %d", h)
		if n != int64(len(l)) {
			a.bad("address-list", "address %d lists %d outputs, %d outputs pay it (%v)", h, n, len(l), head(l))
		}
		for k := range l {
			ho, err := ad.NthTxo(int64(k))
			a.ok(err, "output %d of address %d", k, h)
			t.Evals(1)
			if ho.TxoHeight() != l[k] {
				a.bad("address-list", "output %d of address %d is %d, want %d", k, h, ho.TxoHeight(), l[k])
			}
		}
		back, err := v.Hc.AddressHandleByHash(ad.Hash())
		a.ok(err, "address %d by its hash", h)
		if back.Height() != h {
			a.bad("address-hash", "the hash of address %d is the hash of address %d", h, back.Height())
		}
		t.Count("address_lists", 1)
	}
	for _, l := range [][]int64{multi, single} {
		for _, h := range l {
			if l[0] < h && h < l[len(l)-1] && t.R.Intn(len(l)) >= lists {
				continue
			}
			hh, err := v.Hc.AddressHandleByHeight(h)
			a.ok(err, "handle of address %d", h)
			ad, err := v.Bc.AddressInterface(hh)
			a.ok(err, "address %d", h)
			check(h, ad)
		}
	}
	t.Evals(1)
	if got != want {
		a.bad("conservation", "blocks, transactions, inputs, outputs, satoshis, satoshis spent: stored %v, appended %v", got, want)
	}
	t.Count("audits", 1)
	t.Count("inputs", got.txis)
	t.Count("outputs", got.txos)
	t.Count("addresses_with_several_outputs", int64(len(multi)))
	t.CountMax("outputs_of_an_address", longest(byAddr))
	t.CountMax("outputs_of_a_store", got.txos)
}

func head(l []int64) []int64 {
	if len(l) > 10 {
		return l[:10]
	}
	return l
}

func longest(m map[int64][]int64) (n int64) {
	for _, l := range m {
		if int64(len(l)) > n {
			n = int64(len(l))
		}
	}
	return
}

// history appends a chain in several sessions and looks at the links after each.
func history(name string, co func(t *kit.T) btc.ChainOpts, runs, lists int) kit.Case {
	return kit.Case{Name: name, Timeout: 12 * time.Minute, Run: func(t *kit.T) {
		for run := 0; run < runs; run++ {
			o := co(t)
			delegated := t.R.Intn(3) > 0
			o.Dups = o.Dups && delegated
			chain := btc.Chain(t.R, o)
			m := store.NewModel(chain, len(chain))
			useChi := t.R.Intn(2) == 0
			src := store.RandSource(t.R, m, delegated)
			dir := t.SubDir(fmt.Sprintf("s%d", run))
			what := fmt.Sprintf("%d blocks, %d transactions, %d outputs, handles %v, delegated %v, %v", len(chain), len(m.Txs), len(m.Txos), useChi, delegated, src)
			t.Sample("%s", what)
			t.NoErr(store.GatherHashes(dir, src, t.R.Intn(2) == 0, len(chain)), "gather hashes")
			t.NoErr(store.Index(dir, t.R.Intn(2) == 0, 1+t.R.Intn(4), m), "index")
			acc, err := store.Creator(dir, delegated, nil, nil)
			t.NoErr(err, "creator")
			t.NoErr(acc.CreateFromHashStores(), "CreateFromHashStores")
			h, sessions := 0, 0
			for h < len(chain) {
				acc, err = store.Creator(dir, delegated, nil, nil)
				t.NoErr(err, "creator")
				w, err := store.Open(acc, src, useChi, delegated)
				t.NoErr(err, "open")
				n := 1 + t.R.Intn(len(chain)-h)
				if sessions == 3 {
					n = len(chain) - h
				}
				for ; n > 0; n-- {
					t.NoErr(w.Block(h), fmt.Sprintf("append block %d", h))
					h++
					if t.R.Intn(10) == 0 {
						t.NoErr(w.Ac.Sync(), "Sync")
					}
				}
				w.Ac.Close()
				sessions++
				v, err := store.OpenReadOnly(dir, delegated, false, t.R.Intn(2) == 0)
				t.NoErr(err, "OpenReadOnly")
				links(t, fmt.Sprintf("%s, %d blocks after %d sessions", what, h, sessions), v, count(chain[:h]), lists)
				t.Distinct(what, h)
			}
			t.CountMax("sessions", int64(sessions))
			if t.R.Intn(3) == 0 {
				v, err := store.OpenRam(dir, delegated)
				t.NoErr(err, "OpenReadOnly in memory")
				links(t, what+", in memory", v, count(chain), lists)
			}
			kit.Must(os.RemoveAll(dir))
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:    "C03",
		Level: "exploration",
		Rule: "random chains are appended in 1-4 sessions through either interface; after each session an auditor that knows nothing of the chain walks the whole store and holds its answers against each other (partitions, parents, sources, " +
			"no output spent twice, address lists against the addresses of the outputs), and the totals against the chain's. Distinct: chain and session",
		Assumptions: []string{"the source chain is valid: no output is spent twice, none before it is there"},
		Cases: func(tier string, seed int64) []kit.Case {
			n, runs, lists := 24, 3, 150
			if tier == "thorough" {
				n, runs, lists = 96, 25, 400
			}
			var cs []kit.Case
			// first the long ones
			for k := 0; k < n/24; k++ {
				// more outputs than one file of address lists holds
				cs = append(cs, history(fmt.Sprintf("flood/%d", k), func(t *kit.T) btc.ChainOpts {
					return btc.ChainOpts{Blocks: 60, MaxTxs: 4, Pool: 400, Flood: 1700 + t.R.Intn(600)}
				}, 1, lists))
				cs = append(cs, history(fmt.Sprintf("one/%d", k), func(t *kit.T) btc.ChainOpts {
					return btc.ChainOpts{Blocks: 20, MaxTxs: 4, Pool: 3, Flood: 500, OneAddr: true}
				}, 1, lists))
				cs = append(cs, history(fmt.Sprintf("giant/%d", k), func(t *kit.T) btc.ChainOpts {
					return btc.ChainOpts{Blocks: 7, MaxTxs: 4, Pool: 50, Giant: 2}
				}, 1, lists))
			}
			for k := 0; k < n; k++ {
				cs = append(cs, history(fmt.Sprintf("history/%02d", k), func(t *kit.T) btc.ChainOpts {
					return btc.RandChainOpts(t.R, 2+t.R.Intn(40))
				}, runs, lists))
			}
			return cs
		},
		MinEvals: 10000,
	})
}
