// C04: copying a chain into a store keeps it, across closes and reopens.
package main

import (
	"fmt"
	"os"

	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/store"
)

// subset draws some names.
func subset(t *kit.T, l []string) []string {
	var r []string
	for _, n := range l {
		if t.R.Intn(2) == 0 {
			r = append(r, n)
		}
	}
	return r
}

// build gathers, indexes and appends the first n blocks in sessions.
func build(t *kit.T, dir string, m, part *store.Model, n int, o store.Opts, useChi, delegated bool) string {
	src := store.RandSource(t.R, m, delegated)
	what := fmt.Sprintf("%d of %d blocks, %d transactions, chi %v, delegated %v, %s", n, len(m.Blocks), len(part.Txs), useChi, delegated, src)
	t.Sample("%s", what)
	t.NoErr(store.GatherHashes(dir, src, t.R.Intn(2) == 0, len(m.Blocks)), what+" gather hashes")
	t.NoErr(store.Index(dir, t.R.Intn(2) == 0, 1+t.R.Intn(4), m), what+" index")
	acc, err := store.Creator(dir, delegated, o.BlockNeis, o.TransNeis)
	t.NoErr(err, what+" creator")
	t.NoErr(acc.CreateFromHashStores(), what+" CreateFromHashStores")
	h := 0
	sessions := 0
	for h < n || sessions == 0 {
		if sessions > 0 {
			acc, err = store.Creator(dir, delegated, o.BlockNeis, o.TransNeis)
			t.NoErr(err, what+" creator")
		}
		w, err := store.Open(acc, src, useChi, delegated)
		t.NoErr(err, what+" open")
		k := t.R.Intn(n - h + 1)
		if t.R.Intn(3) == 0 || sessions > 4 {
			k = n - h
		}
		for i := 0; i < k; i++ {
			t.NoErr(w.Block(h), fmt.Sprintf("%s: append block %d (session %d)", what, h, sessions))
			h++
			switch t.R.Intn(12) {
			case 0:
				t.NoErr(w.Ac.Sync(), what+" Sync")
			case 1:
				// read while it is written
				t.NoErr(w.Ac.Sync(), what+" Sync")
				store.Verify(t, fmt.Sprintf("%s: while open for appending, after block %d", what, h-1), store.NewModel(m.Chain, h), store.View{Bc: w.Ac.GetAsChainReadInterface()}, o)
			}
		}
		w.Ac.Close()
		sessions++
		t.Count("sessions", 1)
		if t.R.Intn(3) == 0 {
			v, err := store.OpenReadOnly(dir, delegated, false, true)
			t.NoErr(err, what+" OpenReadOnly between sessions")
			store.Verify(t, fmt.Sprintf("%s: after session %d with %d blocks", what, sessions, h), store.NewModel(m.Chain, h), v, o)
		}
	}
	t.CountMax("sessions_of_one_store", int64(sessions))
	t.Distinct(useChi, delegated, *src, n == len(m.Blocks), sessions, len(part.Txs))
	return what
}

func copies(k int, runs int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("copy/%02d", k), Run: func(t *kit.T) {
		for run := 0; run < runs; run++ {
			useChi := t.R.Intn(2) == 0
			delegated := t.R.Intn(2) == 0
			co := btc.RandChainOpts(t.R, 2+t.R.Intn(40))
			co.Dups = co.Dups && delegated // a store that looks transactions up by hash cannot hold two with one hash
			chain := btc.Chain(t.R, co)
			m := store.NewModel(chain, len(chain))
			n := len(chain)
			if t.R.Intn(3) == 0 {
				n = 1 + t.R.Intn(n)
			}
			part := store.NewModel(chain, n)
			o := store.Opts{BlockNeis: store.BlockNeis, TransNeis: store.TransNeis, Absent: 20}
			if t.R.Intn(2) == 0 {
				o.BlockNeis = subset(t, append([]string{"version", "nonce"}, store.BlockNeis...))
				o.TransNeis = subset(t, append([]string{"version", "locktime"}, store.TransNeis...))
			}
			dir := t.SubDir(fmt.Sprintf("s%d", run))
			what := build(t, dir, m, part, n, o, useChi, delegated)
			store.VerifyAll(t, what, dir, part, o, delegated, t.R.Intn(3) == 0)

			// and from that store into another one
			if n == len(chain) && !part.HasDupTx() && t.R.Intn(2) == 0 {
				second(t, what, dir, part, o)
			}
			os.RemoveAll(dir)
		}
	}}
}

// giant: a transaction of more outputs, and one of more inputs, than 16 bits count.
func giant(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("giant/%d", k), Run: func(t *kit.T) {
		delegated := k/2%2 == 1
		co := btc.RandChainOpts(t.R, 6+t.R.Intn(4))
		co.Dups, co.Big, co.Giant, co.OneAddr = false, false, 2+t.R.Intn(2), k%2 == 1
		chain := btc.Chain(t.R, co)
		m := store.NewModel(chain, len(chain))
		dir := t.SubDir("s")
		o := store.Opts{BlockNeis: store.BlockNeis, TransNeis: store.TransNeis, Absent: 20}
		what := build(t, dir, m, m, len(chain), o, t.R.Intn(2) == 0, delegated)
		store.VerifyAll(t, what, dir, m, o, delegated, false)
		for _, x := range m.Txs {
			t.CountMax("inputs_of_one_transaction", int64(x.NTxi))
			t.CountMax("outputs_of_one_transaction", int64(x.NTxo))
		}
		most := int64(0)
		for _, b := range chain {
			for _, x := range b.Txs {
				for _, in := range x.Ins {
					if v := int64(in.Vout); v > most && !x.IsCoinbase() {
						most = v
					}
				}
			}
		}
		t.CountMax("highest_output_number_spent", most)
	}}
}

// second copies a store into a new one by the chain reading interface.
func second(t *kit.T, what, dir string, m *store.Model, o store.Opts) {
	v, err := store.OpenReadOnly(dir, false, false, true)
	t.NoErr(err, what+" open as source")
	to := t.SubDir("second")
	src := store.RandSource(t.R, m, false)
	t.NoErr(store.GatherHashes(to, src, true, len(m.Blocks)), what+" gather hashes of the copy")
	t.NoErr(store.Index(to, true, 2, m), what+" index the copy")
	acc, err := store.Creator(to, false, o.BlockNeis, o.TransNeis)
	t.NoErr(err, what+" creator")
	t.NoErr(acc.CreateFromHashStores(), what+" CreateFromHashStores")
	ac, err := acc.Open()
	t.NoErr(err, what+" Open")
	hb := v.Bc.GenesisBlock()
	for h := 0; !hb.IsInvalid(); h++ {
		t.NoErr(ac.AppendBlock(v.Bc, hb), fmt.Sprintf("%s: copy block %d", what, h))
		hb, err = v.Bc.NextBlock(hb)
		t.NoErr(err, "NextBlock")
	}
	ac.Close()
	store.VerifyAll(t, what+", copied from that store into another", to, m, o, false, false)
	t.Count("stores_copied_from_stores", 1)
	kit.Must(os.RemoveAll(to))
}

func main() {
	kit.Main(kit.Prop{
		ID:    "C04",
		Level: "exploration",
		Rule: "model comparison: source chains of 2-41 random blocks (reused scripts, same-block spends, repeated coinbases, hundreds of inputs/outputs and, in a few, more than 65536 of a transaction, empty and long scripts, witnesses) presented by both interfaces " +
			"with handles by height, hash, path or parent are appended in 1-6 sessions; the reopened store (on disk with and without hashes in memory, and wholly in memory) is compared with the model by every route: " +
			"walks forward and back, by height, by hash, by parent and index, by address, privileged files, statistics; absent hashes and heights beyond the end give an error or an invalid handle",
		Assumptions: []string{"the hashes of all blocks are gathered and indexed before the main part is appended, as the three phases do"},
		Cases: func(tier string, seed int64) []kit.Case {
			n, runs := 18, 2
			if tier == "thorough" {
				n, runs = 64, 24
			}
			var cs []kit.Case
			for k := 0; k < (n+11)/12; k++ {
				cs = append(cs, giant(k))
			}
			for k := 0; k < n; k++ {
				cs = append(cs, copies(k, runs))
			}
			return cs
		},
		MinEvals: 10000,
	})
}
