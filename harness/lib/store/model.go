// Package store has the model of a stored chain, source chains to append from, and
// the comparison of a store with the model over every route the interfaces offer.
package store

import (
	"crypto/sha256"
	"math"

	"verifharness/lib/btc"
)

type Tx struct {
	Hash     btc.Hash
	Block    int
	FirstTxi int
	NTxi     int
	FirstTxo int
	NTxo     int
	First    int // height of the first transaction with this hash
	Neis     map[string]int64
}
type Txi struct {
	Tx      int // parent
	Src     int // transaction whose output is spent
	Vout    int64
	SrcHash btc.Hash
}
type Txo struct {
	Tx     int
	Sats   int64
	Addr   int // height of the address: the first output that pays it
	Script []byte
}
type Blk struct {
	Hash    btc.Hash
	FirstTx int
	NTx     int
	Neis    map[string]int64
}

// Model is what a store of the first blocks of a chain has to hold.
type Model struct {
	Chain    []*btc.Block
	Blocks   []Blk
	Txs      []Tx
	Txis     []Txi
	Txos     []Txo
	AddrTxos map[int][]int // by address height
	AddrHash map[int]btc.Hash
	Script   map[int][]byte
	// Hashes in the order they are gathered
	BlkHashes, TrnHashes, AddrHashes []btc.Hash
}

// BlockNeis and TransNeis are the statistics the pipeline stores.
var BlockNeis = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}
var TransNeis = []string{"size", "vsize", "weight"}

// NewModel makes the model of chain[:n].
func NewModel(chain []*btc.Block, n int) *Model {
	if n > len(chain) {
		n = len(chain)
	}
	m := &Model{Chain: chain, AddrTxos: map[int][]int{}, AddrHash: map[int]btc.Hash{}, Script: map[int][]byte{}}
	byHash := map[btc.Hash]int{}
	byScript := map[string]int{}
	for h := 0; h < n; h++ {
		b := chain[h]
		lo := h - 10
		if lo < 0 {
			lo = 0
		}
		var times []uint32
		for _, x := range chain[lo : h+1] {
			times = append(times, x.Time)
		}
		m.Blocks = append(m.Blocks, Blk{Hash: b.Hash(), FirstTx: len(m.Txs), NTx: len(b.Txs), Neis: map[string]int64{
			"time": int64(b.Time), "mediantime": int64(btc.MedianTime(times)), "difficulty": int64(math.Round(btc.Difficulty(b.Bits))),
			"strippedsize": int64(b.Stripped()), "size": int64(b.Size()), "weight": int64(b.Weight()), "version": int64(b.Version), "nonce": int64(b.Nonce)}})
		m.BlkHashes = append(m.BlkHashes, b.Hash())
		for i, t := range b.Txs {
			id := t.ID()
			x := Tx{Hash: id, Block: h, FirstTxi: len(m.Txis), FirstTxo: len(m.Txos), NTxo: len(t.Outs), Neis: map[string]int64{
				"size": int64(t.Size()), "vsize": int64(t.VSize()), "weight": int64(t.Weight()), "version": int64(t.Version), "locktime": int64(t.Lock)}}
			pos := len(m.Txs)
			if f, ok := byHash[id]; ok {
				x.First = f
			} else {
				byHash[id] = pos
				x.First = pos
			}
			m.TrnHashes = append(m.TrnHashes, id)
			if i > 0 {
				x.NTxi = len(t.Ins)
				for _, in := range t.Ins {
					src, ok := byHash[in.Prev]
					if !ok {
						panic("store: the chain spends an unknown transaction")
					}
					m.Txis = append(m.Txis, Txi{Tx: pos, Src: src, Vout: int64(in.Vout), SrcHash: in.Prev})
				}
			}
			for _, out := range t.Outs {
				o := len(m.Txos)
				a, ok := byScript[string(out.Script)]
				if !ok {
					a = o
					byScript[string(out.Script)] = o
					m.AddrHash[o] = sha256.Sum256(out.Script)
					m.Script[o] = out.Script
				}
				m.AddrHashes = append(m.AddrHashes, sha256.Sum256(out.Script))
				m.AddrTxos[a] = append(m.AddrTxos[a], o)
				m.Txos = append(m.Txos, Txo{Tx: pos, Sats: out.Value, Addr: a, Script: out.Script})
			}
			m.Txs = append(m.Txs, x)
		}
	}
	return m
}

// HasDupTx says whether a transaction comes twice.
func (m *Model) HasDupTx() bool {
	for i, t := range m.Txs {
		if t.First != i {
			return true
		}
	}
	return false
}
