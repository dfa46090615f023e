// C06: the JSON and the binary form of a block parse to the same block.
package main

import (
	"fmt"

	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"verifharness/kit"
	"verifharness/lib/blockcmp"
	"verifharness/lib/btc"
)

func opts(t *kit.T, i int) btc.JSONOpts {
	o := btc.JSONOpts{UnsignedVersion: i&1 != 0, Compact: i&2 != 0, ShortAmounts: i&4 != 0, NoHex: i&8 != 0, Prevout: i&16 != 0, NoWitness: i&32 != 0,
		Height: 1 + t.R.Intn(900000), Median: t.R.Uint32()}
	if i&64 != 0 {
		h := btc.RandHash(t.R)
		o.Next = h.Hex()
	}
	return o
}

func both(t *kit.T, what string, b *btc.Block, o btc.JSONOpts, pj, pb *intrinsicobjects.Block) {
	js := b.JSON(o)
	if err := intrinsicobjects.ParseJsonBlock(js, pj); err != nil {
		t.Fatalf("json-refused", "%s: %v\n%.2000s", what, err, js)
	}
	for i := range js {
		js[i] = 'x' // what was parsed must not depend on the bytes any more
	}
	blockcmp.Compare(t, what+" as JSON", b, pj, true)
	intrinsicobjects.ParseBinaryBlock(b.Raw(), pb)
	blockcmp.Compare(t, what+" as binary", b, pb, false)
	// and with each other
	t.Evals(1)
	if pj.Difficulty != pb.Difficulty {
		d := pj.Difficulty/pb.Difficulty - 1
		if !(d < 1e-12 && d > -1e-12) {
			t.Failf("difficulty", "%s: JSON %v, binary %v", what, pj.Difficulty, pb.Difficulty)
		}
	}
	t.Count("pairs", 1)
	t.Distinct(len(b.Txs), b.Size(), o.Compact, o.UnsignedVersion)
}

func blocks(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("blocks/%d", k), Run: func(t *kit.T) {
		var rj, rb intrinsicobjects.Block
		for i := 0; i < 16; i++ {
			b := btc.RandBlock(t.R, false)
			pj, pb := &rj, &rb
			if i%4 == 0 {
				pj, pb = new(intrinsicobjects.Block), new(intrinsicobjects.Block)
			}
			both(t, fmt.Sprintf("block %d", i), b, opts(t, t.R.Intn(128)), pj, pb)
		}
	}}
}

// amounts: many amounts exactly.
func amounts(k int, n int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("amounts/%d", k), Run: func(t *kit.T) {
		var pj intrinsicobjects.Block
		for done := 0; done < n; done += 2000 {
			b := btc.RandBlock(t.R, false)
			b.Txs = []*btc.Tx{btc.RandTx(t.R, true, false)}
			x := b.Txs[0]
			x.Outs = nil
			base := btc.RandAmount(t.R)
			for i := 0; i < 2000; i++ {
				v := btc.RandAmount(t.R)
				switch k % 4 {
				case 0: // neighbours
					v = base + int64(i)
				case 1: // near the maximum
					v = btc.MaxMoney - int64(done) - int64(i)
				case 2: // many nines, many zeroes
					p := int64(1)
					for e := t.R.Intn(16); e > 0; e-- {
						p *= 10
					}
					v = p*int64(t.R.Intn(1000)) + int64(t.R.Intn(3)) - 1
				}
				if v < 0 {
					v = 0
				}
				if v > btc.MaxMoney {
					v = btc.MaxMoney - v%1000
				}
				x.Outs = append(x.Outs, btc.Out{Value: v})
			}
			b.SetMerkle()
			js := b.JSON(btc.JSONOpts{Compact: true, ShortAmounts: t.R.Intn(2) == 0, NoHex: true, Height: 5})
			if err := intrinsicobjects.ParseJsonBlock(js, &pj); err != nil {
				t.Fatalf("json-refused", "%v", err)
			}
			for i, o := range x.Outs {
				t.Evals(1)
				if got := pj.Transactions[0].GetTxo(pj.Storage, int64(i)).Value; got != o.Value {
					t.Fatalf("tx:satoshis", "%s bitcoin became %d satoshis", btc.Amount(o.Value), got)
				}
			}
			t.Count("amounts", 2000)
			t.Distinct("amounts", base, done)
		}
	}}
}

func genesis() kit.Case {
	return kit.Case{Name: "genesis", Run: func(t *kit.T) {
		for i := 0; i < 128; i++ {
			o := opts(t, i)
			o.Height = 0
			both(t, "genesis", btc.Genesis(), o, new(intrinsicobjects.Block), new(intrinsicobjects.Block))
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C06",
		Rule:     "random blocks are written as JSON the way Bitcoin Core does (by an independent encoder, in 128 presentation variants) and as binary; both are parsed and each is compared field by field with what was encoded, and with each other; amounts from 0 to 21 million bitcoin, random, consecutive, near the maximum and near powers of ten, must become exactly the satoshis. Distinct: block shapes and amount ranges",
		MinEvals: 100000,
		Cases: func(tier string, seed int64) []kit.Case {
			n, am := 240, 200000
			if tier == "thorough" {
				n, am = 600, 4000000
			}
			cs := []kit.Case{genesis()}
			for i := 0; i < n; i++ {
				cs = append(cs, blocks(i))
			}
			for i := 0; i < 8; i++ {
				cs = append(cs, amounts(i, am))
			}
			return cs
		},
	})
}
