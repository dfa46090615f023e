// Package blockcmp compares parsed blocks with the independent model.
package blockcmp

import (
	"bytes"
	"fmt"
	"math"

	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"verifharness/kit"
	"verifharness/lib/btc"
)

// Compare compares a parsed block with what was serialised. fromJSON: the vout of
// a coinbase input is not compared, as there is none in the JSON.
func Compare(t *kit.T, what string, b *btc.Block, p *intrinsicobjects.Block, fromJSON bool) {
	ck := func(name string, got, want interface{}) {
		t.Evals(1)
		if got != want {
			t.Fatalf("field:"+name, "%s: %s is %v, want %v", what, name, got, want)
		}
	}
	ck("blockhash", btc.Hash(p.BlockHash), b.Hash())
	ck("version", p.Version, b.Version)
	ck("prevhash", btc.Hash(p.PrevHash), b.Prev)
	ck("merkleroot", btc.Hash(p.MerkleRoot), b.Merkle)
	ck("time", p.Time, b.Time)
	ck("nbits", p.NBits, b.Bits)
	ck("nonce", p.Nonce, b.Nonce)
	ck("size", p.Size, b.Size())
	ck("strippedsize", p.StrippedSize, b.Stripped())
	ck("weight", p.Weight, b.Weight())
	t.Evals(1)
	d := btc.Difficulty(b.Bits)
	if !(math.Abs(p.Difficulty-d) <= 1e-12*d) {
		t.Failf("field:difficulty", "%s: difficulty is %v, want %v", what, p.Difficulty, d)
	}
	ck("transactions", len(p.Transactions), len(b.Txs))
	for i, x := range b.Txs {
		y := &p.Transactions[i]
		w := fmt.Sprintf("%s tx %d", what, i)
		ckt := func(name string, got, want interface{}) {
			t.Evals(1)
			if got != want {
				t.Fatalf("tx:"+name, "%s: %s is %v, want %v", w, name, got, want)
			}
		}
		ckt("txid", btc.Hash(y.TxId), x.ID())
		ckt("version", y.Version, x.Version)
		ckt("segwit", y.IsSegWit, x.Segwit)
		ckt("size", y.Size, x.Size())
		ckt("strippedsize", y.StrippedSize, x.Stripped())
		ckt("weight", y.Weight, x.Weight())
		ckt("vsize", y.VSize, x.VSize())
		ckt("inputs", y.TxiCount(), int64(len(x.Ins)))
		ckt("outputs", y.TxoCount(), int64(len(x.Outs)))
		for k, in := range x.Ins {
			got := y.GetTxi(p.Storage, int64(k))
			ckt("input txid", btc.Hash(got.TxId), in.Prev)
			if !fromJSON || !x.IsCoinbase() {
				ckt("input vout", got.VOut, int64(in.Vout))
			}
		}
		for k, o := range x.Outs {
			got := y.GetTxo(p.Storage, int64(k))
			ckt("satoshis", got.Value, o.Value)
			s := p.Storage.Scripts[got.ScriptPubKeyStart : got.ScriptPubKeyStart+got.ScriptPubKeyLen]
			t.Evals(1)
			if !bytes.Equal(s, o.Script) {
				t.Fatalf("tx:script", "%s output %d: script is %x, want %x", w, k, s, o.Script)
			}
		}
		if x.Segwit {
			t.Count("segwit_txs", 1)
		} else {
			t.Count("legacy_txs", 1)
		}
		t.Count("inputs", int64(len(x.Ins)))
		t.Count("outputs", int64(len(x.Outs)))
	}
	t.Count("blocks", 1)
}
