// C05: a serialised block parses to exactly its contents.
package main

import (
	"bytes"
	"fmt"

	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"verifharness/kit"
	"verifharness/lib/blockcmp"
	"verifharness/lib/btc"
)

// sequence: many blocks parsed, some into the same object.
func sequence(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("sequence/%d", k), Run: func(t *kit.T) {
		var reuse intrinsicobjects.Block
		var keep *btc.Block
		var kept intrinsicobjects.Block
		for i := 0; i < 25; i++ {
			b := btc.RandBlock(t.R, i%5 == 0)
			raw := b.Raw()
			in := append(make([]byte, 0, len(raw)+t.R.Intn(200)), raw...)
			var fresh intrinsicobjects.Block
			p := &fresh
			if i%2 == 0 {
				p = &reuse
			}
			intrinsicobjects.ParseBinaryBlock(in, p)
			if !bytes.Equal(in, raw) {
				t.Fatalf("input-changed", "parsing changed the bytes")
			}
			for j := range in {
				in[j] = 0xee // what was parsed must not depend on the bytes any more
			}
			blockcmp.Compare(t, fmt.Sprintf("block %d of %d bytes", i, len(raw)), b, p, false)
			if i == 1 {
				keep, kept = b, fresh
			}
			t.Distinct(len(b.Txs), len(raw))
			if i < 2 {
				t.Sample("block of %d bytes, %d txs, hash %s", len(raw), len(b.Txs), b.Hash().Hex())
			}
		}
		blockcmp.Compare(t, "kept block", keep, &kept, false)
	}}
}

// large: counts and lengths that need four byte compact sizes.
func large(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("large/%d", k), Run: func(t *kit.T) {
		b := btc.RandBlock(t.R, true)
		x := btc.RandTx(t.R, false, false)
		n := 65530 + t.R.Intn(15)
		switch k % 4 {
		case 0:
			for len(x.Outs) < n {
				x.Outs = append(x.Outs, btc.Out{Value: btc.RandAmount(t.R), Script: []byte{byte(len(x.Outs))}})
			}
		case 1:
			for len(x.Ins) < n {
				x.Ins = append(x.Ins, btc.In{Prev: btc.RandHash(t.R), Vout: uint32(len(x.Ins))})
			}
		case 2:
			x.Segwit = true
			x.Ins[0].Witness = nil
			for len(x.Ins[0].Witness) < n {
				x.Ins[0].Witness = append(x.Ins[0].Witness, []byte{1})
			}
			x.Ins[0].Witness = append(x.Ins[0].Witness, make([]byte, 3000000))
		case 3:
			x.Outs[0].Script = make([]byte, 1000000)
			t.R.Read(x.Outs[0].Script)
			for i := 0; i < 3000; i++ {
				b.Txs = append(b.Txs, btc.RandTx(t.R, false, false))
			}
		}
		b.Txs = append(b.Txs, x, btc.RandTx(t.R, false, false))
		b.SetMerkle()
		var p intrinsicobjects.Block
		intrinsicobjects.ParseBinaryBlock(b.Raw(), &p)
		blockcmp.Compare(t, fmt.Sprintf("large %d", k%4), b, &p, false)
		t.Distinct("large", k%4, n)
	}}
}

// cut: bytes that end early or late never parse as a block.
func cut(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("cut/%d", k), Run: func(t *kit.T) {
		b := btc.RandBlock(t.R, false)
		for len(b.Raw()) > 3000 || len(b.Raw()) < 150 {
			b = btc.RandBlock(t.R, false)
		}
		raw := b.Raw()
		for n := 0; n <= len(raw)+3; n++ {
			if n == len(raw) {
				continue
			}
			in := make([]byte, 0, len(raw)+64) // what is beyond the end is not part of the block
			in = append(in, raw...)
			in = append(in, 0, 0, 0)[:n]
			if n > len(raw) {
				in = append(append(in[:0], raw...), make([]byte, n-len(raw))...)
			}
			var p intrinsicobjects.Block
			t.Evals(1)
			if kit.Panics(func() { intrinsicobjects.ParseBinaryBlock(in, &p) }) == "" {
				t.Fatalf("cut-accepted", "%d of %d bytes of a block were parsed without complaint", n, len(raw))
			}
			t.Count("cuts_refused", 1)
		}
		t.Distinct("cut", len(raw))
	}}
}

func genesis() kit.Case {
	return kit.Case{Name: "genesis", Run: func(t *kit.T) {
		b := btc.Genesis()
		var p intrinsicobjects.Block
		intrinsicobjects.ParseBinaryBlock(b.Raw(), &p)
		blockcmp.Compare(t, "genesis", b, &p, false)
		if p.Difficulty != 1 || p.Size != 285 {
			t.Failf("genesis", "size %d", p.Size)
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C05",
		Rule:     "random blocks (legacy and segwit, empty and long scripts, counts at the edges of the widths, up to 65,545 inputs, outputs or witness items) are serialised by an independent encoder, parsed into fresh and reused objects and compared field by field; every truncation of blocks must be refused. Distinct: block sizes and transaction counts",
		MinEvals: 100000,
		Cases: func(tier string, seed int64) []kit.Case {
			n := 120
			if tier == "thorough" {
				n = 2000
			}
			cs := []kit.Case{genesis(), large(0), large(1), large(2), large(3)}
			for i := 0; i < n; i++ {
				cs = append(cs, sequence(i))
				if i%4 == 0 {
					cs = append(cs, cut(i))
				}
				if i%50 == 49 {
					cs = append(cs, large(4+i/50))
				}
			}
			return cs
		},
	})
}
