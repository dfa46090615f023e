package main

import (
	"fmt"
	"math/rand"
	"sort"
	"time"

	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/faulty"
	"verifharness/lib/fdmon"
	"verifharness/lib/store"

	cri "github.com/KitchenMishap/pudding-shed/chainreadinterface"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
)

// question about a chain; the answer is compared as text.
type question struct {
	what string
	ask  func() (string, error)
}

func ints(p *map[string]int64) string {
	var l []string
	for k, v := range *p {
		l = append(l, fmt.Sprint(k, "=", v))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

// questions about a chain.
func questions(r *rand.Rand, v store.View, m *store.Model) []question {
	var l []question
	q := func(ask func() (string, error), f string, a ...interface{}) {
		l = append(l, question{fmt.Sprintf(f, a...), ask})
	}
	block := func(b cri.IBlockHandle, err error) (cri.IBlock, error) {
		if err != nil {
			return nil, err
		}
		return v.Bc.BlockInterface(b)
	}
	trans := func(x cri.ITransHandle, err error) (cri.ITransaction, error) {
		if err != nil {
			return nil, err
		}
		return v.Bc.TransInterface(x)
	}
	nb, nt, ni, no := len(m.Blocks), len(m.Txs), len(m.Txis), len(m.Txos)
	for k := 0; k < 3; k++ {
		h := r.Intn(nb)
		hash := ih.Sha256(m.Blocks[h].Hash)
		n := r.Intn(m.Blocks[h].NTx)
		for _, by := range []string{"height", "hash"} {
			get := func() (cri.IBlock, error) {
				if by == "hash" {
					return block(v.Hc.BlockHandleByHash(hash))
				}
				return block(v.Hc.BlockHandleByHeight(int64(h)))
			}
			q(func() (string, error) {
				b, err := get()
				if err != nil {
					return "", err
				}
				x, err := b.Hash()
				return fmt.Sprint(b.Height(), b.IsInvalid(), x), err
			}, "block %d by %s", h, by)
			q(func() (string, error) {
				b, err := get()
				if err != nil {
					return "", err
				}
				c, err := b.TransactionCount()
				return fmt.Sprint(c), err
			}, "transactions of block %d by %s", h, by)
			q(func() (string, error) {
				b, err := get()
				if err != nil {
					return "", err
				}
				x, err := b.NthTransaction(int64(n))
				if err != nil {
					return "", err
				}
				hash, err := x.Hash()
				return fmt.Sprint(x.Height(), hash), err
			}, "transaction %d of block %d by %s", n, h, by)
			q(func() (string, error) {
				b, err := get()
				if err != nil {
					return "", err
				}
				p, err := b.NonEssentialInts()
				if err != nil {
					return "", err
				}
				return ints(p), nil
			}, "statistics of block %d by %s", h, by)
		}
		q(func() (string, error) {
			b, err := v.Hc.BlockHandleByHeight(int64(h))
			if err != nil {
				return "", err
			}
			b, err = v.Bc.NextBlock(b)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(b.IsInvalid(), b.Height()), nil
		}, "block after %d", h)
	}
	q(func() (string, error) {
		b, err := v.Bc.LatestBlock()
		if err != nil {
			return "", err
		}
		return fmt.Sprint(b.IsInvalid(), b.Height()), nil
	}, "latest block")
	q(func() (string, error) {
		b, err := v.Bc.LatestTransaction()
		if err != nil {
			return "", err
		}
		return fmt.Sprint(b.IsInvalid(), b.Height()), nil
	}, "latest transaction")
	for k := 0; k < 4; k++ {
		i := r.Intn(nt)
		w := m.Txs[i]
		get := func() (cri.ITransaction, error) { return trans(v.Hc.TransactionHandleByHeight(int64(i))) }
		if k%2 == 0 {
			get = func() (cri.ITransaction, error) { return trans(v.Hc.TransactionHandleByHash(ih.Sha256(w.Hash))) }
		}
		a, b := int64(0), int64(0)
		if w.NTxi > 0 {
			a = int64(r.Intn(w.NTxi))
		}
		if w.NTxo > 0 {
			b = int64(r.Intn(w.NTxo))
		}
		each := func(name string, f func(x cri.ITransaction) (string, error)) {
			q(func() (string, error) {
				x, err := get()
				if err != nil {
					return "", err
				}
				return f(x)
			}, "%s of transaction %d (%d)", name, i, k)
		}
		each("hash", func(x cri.ITransaction) (string, error) {
			h, err := x.Hash()
			return fmt.Sprint(x.Height(), h), err
		})
		each("inputs", func(x cri.ITransaction) (string, error) {
			n, err := x.TxiCount()
			return fmt.Sprint(n), err
		})
		each("outputs", func(x cri.ITransaction) (string, error) {
			n, err := x.TxoCount()
			return fmt.Sprint(n), err
		})
		each("satoshis", func(x cri.ITransaction) (string, error) {
			n, err := x.AllTxoSatoshis()
			return fmt.Sprint(n), err
		})
		each("statistics", func(x cri.ITransaction) (string, error) {
			p, err := x.NonEssentialInts()
			if err != nil {
				return "", err
			}
			return ints(p), nil
		})
		if w.NTxi > 0 {
			each("an input", func(x cri.ITransaction) (string, error) {
				h, err := x.NthTxi(a)
				if err != nil {
					return "", err
				}
				y, err := v.Bc.TxiInterface(h)
				if err != nil {
					return "", err
				}
				s, err := y.SourceTxo()
				if err != nil {
					return "", err
				}
				return fmt.Sprint(y.TxiHeight(), s.ParentTrans().Height(), s.ParentIndex()), nil
			})
		}
		if w.NTxo > 0 {
			each("an output", func(x cri.ITransaction) (string, error) {
				h, err := x.NthTxo(b)
				if err != nil {
					return "", err
				}
				y, err := v.Bc.TxoInterface(h)
				if err != nil {
					return "", err
				}
				s, err := y.Satoshis()
				if err != nil {
					return "", err
				}
				ad, err := y.Address()
				if err != nil {
					return "", err
				}
				return fmt.Sprint(y.TxoHeight(), s, ad.Height()), nil
			})
		}
		q(func() (string, error) {
			n, err := v.Par.ParentBlockOfTrans(int64(i))
			return fmt.Sprint(n), err
		}, "block of transaction %d", i)
		h := r.Intn(no)
		q(func() (string, error) {
			n, err := v.Par.ParentTransOfTxo(int64(h))
			if err != nil {
				return "", err
			}
			s, err := v.Pf.TxoSatsFile().ReadWordAt(int64(h))
			return fmt.Sprint(n, s), err
		}, "transaction of output %d", h)
		if ni > 0 {
			h := r.Intn(ni)
			q(func() (string, error) {
				n, err := v.Par.ParentTransOfTxi(int64(h))
				if err != nil {
					return "", err
				}
				s, err := v.Pf.TxiTxFile().ReadWordAt(int64(h))
				return fmt.Sprint(n, s), err
			}, "transaction of input %d", h)
		}
		ad := m.Txos[r.Intn(no)].Addr
		hash := ih.Sha256(m.AddrHash[ad])
		for _, by := range []string{"height", "hash", "script"} {
			q(func() (string, error) {
				var ah cri.IAddressHandle
				var err error
				switch by {
				case "height":
					ah, err = v.Hc.AddressHandleByHeight(int64(ad))
				case "hash":
					ah, err = v.Hc.AddressHandleByHash(hash)
				default:
					ah, err = v.Hc.AddressHandleByString(string(m.Script[ad]))
				}
				if err != nil {
					return "", err
				}
				a, err := v.Bc.AddressInterface(ah)
				if err != nil {
					return "", err
				}
				n, err := a.TxoCount()
				if err != nil {
					return "", err
				}
				s := fmt.Sprint(ah.Height(), " ", n)
				for i := int64(0); i < n && i < 4; i++ {
					o, err := a.NthTxo(i)
					if err != nil {
						return "", err
					}
					s += fmt.Sprint(" ", o.TxoHeight())
				}
				return s, nil
			}, "address %d by %s", ad, by)
		}
	}
	return l
}

func chains(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("chain/%d", k), Timeout: 6 * time.Minute, Run: func(t *kit.T) {
		defer fdmon.Hold()()
		defer faulty.Disarm()
		r := t.R
		delegated, ram, hashesInRam := k%2 == 0, k%5 == 4, r.Intn(2) == 0
		o := btc.RandChainOpts(r, 10+r.Intn(25))
		o.Big, o.Wide, o.Dups = false, false, o.Dups && delegated
		c := btc.Chain(r, o)
		m := store.NewModel(c, len(c))
		src := store.RandSource(r, m, delegated)
		dir := t.SubDir("x")
		t.NoErr(store.GatherHashes(dir, src, r.Intn(2) == 0, len(c)), "gathering")
		t.NoErr(store.Index(dir, r.Intn(2) == 0, 2, m), "indexing")
		acc, err := store.Creator(dir, delegated, store.BlockNeis, store.TransNeis)
		t.NoErr(err, "creator")
		t.NoErr(acc.CreateFromHashStores(), "creating")
		w, err := store.Open(acc, src, r.Intn(2) == 0, delegated)
		t.NoErr(err, "opening to append")
		for h := range c {
			t.NoErr(w.Block(h), "appending")
		}
		w.Ac.Close()
		open := func() (store.View, error) {
			if ram {
				return store.OpenRam(dir, delegated)
			}
			return store.OpenReadOnly(dir, delegated, false, hashesInRam)
		}
		what := fmt.Sprintf("a chain (delegated %v, in memory %v, hashes in memory %v)", delegated, ram, hashesInRam)
		plan := &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: -1}
		plan.Arm()
		v, err := open()
		faulty.Disarm()
		t.NoErr(err, "opening "+what)
		store.Verify(t, what, m, v, store.Opts{BlockNeis: store.BlockNeis, TransNeis: store.TransNeis, Absent: 3, Addrs: 5})
		most := 40
		if t.Thorough() {
			most = 400
		}
		for _, i := range plan.Points(r, most) {
			mode := r.Intn(faulty.Modes)
			p := &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: i, Mode: mode, Err: faulty.Errno(r)}
			before := fdmon.Open(dir)
			var y store.View
			p.Arm()
			crash := guarded(func() { y, err = open() })
			faulty.Disarm()
			if p.Failed == 0 {
				t.NoErr(err, "opening without a fault")
				continue
			}
			t.Evals(1)
			t.Count("faults", 1)
			t.Distinct("chain", ram, hashesInRam, p.First, mode)
			if crash != "" {
				t.Failf("crash", "%s, opening, %s failing (%v) %s: a crash: %s", what, p.First, p.Err, faulty.ModeName[mode], crash)
				t.Retire()
				return
			}
			if err != nil {
				t.Count("reported", 1)
				if l := fdmon.Open(dir); len(l) > len(before) {
					t.Failf("open", "%s, opening, %s failing (%v) %s (%v): still open: %s", what, p.First, p.Err, faulty.ModeName[mode], err, fdmon.Short(l))
					t.Retire()
					return
				}
				continue
			}
			t.Count("answered_well_nevertheless", 1)
			store.Verify(t, what+" (opened nevertheless)", m, y, store.Opts{BlockNeis: store.BlockNeis, TransNeis: store.TransNeis, Absent: 3, Addrs: 5})
		}
		qs := questions(r, v, m)
		want := make([]string, len(qs))
		for i, q := range qs {
			want[i], err = q.ask()
			t.NoErr(err, q.what)
		}
		for i, q := range qs {
			plan := &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: -1}
			plan.Arm()
			_, err := q.ask()
			faulty.Disarm()
			t.NoErr(err, q.what)
			t.CountMax("operations_of_a_question", int64(plan.Ops))
			for _, n := range plan.Points(r, most/10+2) {
				for mode := 0; mode < faulty.Modes; mode++ {
					p := &faulty.Plan{Dir: dir, Kinds: faulty.Reading, At: n, Mode: mode, Err: faulty.Errno(r)}
					var got string
					p.Arm()
					crash := guarded(func() { got, err = q.ask() })
					faulty.Disarm()
					if p.Failed == 0 {
						t.NoErr(err, q.what+" without a fault")
						continue
					}
					t.Evals(1)
					t.Count("faults", 1)
					t.Count("questions", 1)
					t.Distinct("question", ram, hashesInRam, p.First, mode)
					how := fmt.Sprintf("%s, %s with %s failing (%v) %s", what, q.what, p.First, p.Err, faulty.ModeName[mode])
					if crash != "" {
						t.Failf("crash", "%s: a crash: %s", how, crash)
						t.Retire()
						return
					}
					if err != nil {
						t.Count("reported", 1)
					} else if got != want[i] {
						t.Failf("wrong", "%s: the answer is %s, want %s", how, got, want[i])
					} else {
						t.Count("answered_well_nevertheless", 1)
					}
					if got, err = q.ask(); err != nil || got != want[i] {
						t.Failf("afterwards", "%s; then, without faults: %s (%v), want %s", how, got, err, want[i])
					}
				}
			}
		}
		store.Verify(t, what+", at the end", m, v, store.Opts{BlockNeis: store.BlockNeis, TransNeis: store.TransNeis, Absent: 3, Addrs: 5})
	}}
}
