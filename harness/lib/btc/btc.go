// Package btc is an independent description of Bitcoin blocks: it serialises them as the network does and as
// Bitcoin Core's REST interface prints them, and computes what follows from them. It shares no code with /repo.
package btc

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Hash [32]byte

func (h Hash) Hex() string {
	var r [32]byte
	for i := range h {
		r[31-i] = h[i]
	}
	return hex.EncodeToString(r[:])
}

func Dsha(b []byte) Hash {
	a := sha256.Sum256(b)
	return sha256.Sum256(a[:])
}

type In struct {
	Prev    Hash
	Vout    uint32
	Script  []byte
	Seq     uint32
	Witness [][]byte
}
type Out struct {
	Value  int64
	Script []byte
}
type Tx struct {
	Version uint32
	Segwit  bool
	Ins     []In
	Outs    []Out
	Lock    uint32
	// Wide makes compact sizes wider than needed (0: canonical)
	Wide int
}
type Block struct {
	Version uint32
	Prev    Hash
	Merkle  Hash
	Time    uint32
	Bits    uint32
	Nonce   uint32
	Txs     []*Tx
	Wide    int

	hash  Hash
	hashd bool
}

func cs(w *bytes.Buffer, n int, wide int) {
	width := 1
	switch {
	case n > 0xffffffff:
		width = 9
	case n > 0xffff:
		width = 5
	case n > 252:
		width = 3
	}
	if wide > width {
		width = wide
	}
	switch width {
	case 1:
		w.WriteByte(byte(n))
	case 3:
		w.WriteByte(253)
		binary.Write(w, binary.LittleEndian, uint16(n))
	case 5:
		w.WriteByte(254)
		binary.Write(w, binary.LittleEndian, uint32(n))
	default:
		w.WriteByte(255)
		binary.Write(w, binary.LittleEndian, uint64(n))
	}
}

func u32(w *bytes.Buffer, v uint32) {
	var b [4]byte
	binary.LittleEndian.PutUint32(b[:], v)
	w.Write(b[:])
}
func u64(w *bytes.Buffer, v uint64) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	w.Write(b[:])
}

// Raw serialises, with or without the witness.
func (t *Tx) Raw(witness bool) []byte {
	var w bytes.Buffer
	u32(&w, t.Version)
	if witness && t.Segwit {
		w.Write([]byte{0, 1})
	}
	cs(&w, len(t.Ins), t.Wide)
	for _, i := range t.Ins {
		w.Write(i.Prev[:])
		u32(&w, i.Vout)
		cs(&w, len(i.Script), t.Wide)
		w.Write(i.Script)
		u32(&w, i.Seq)
	}
	cs(&w, len(t.Outs), t.Wide)
	for _, o := range t.Outs {
		u64(&w, uint64(o.Value))
		cs(&w, len(o.Script), t.Wide)
		w.Write(o.Script)
	}
	if witness && t.Segwit {
		for _, i := range t.Ins {
			cs(&w, len(i.Witness), t.Wide)
			for _, x := range i.Witness {
				cs(&w, len(x), t.Wide)
				w.Write(x)
			}
		}
	}
	u32(&w, t.Lock)
	return w.Bytes()
}

func (t *Tx) ID() Hash      { return Dsha(t.Raw(false)) }
func (t *Tx) Size() int     { return len(t.Raw(true)) }
func (t *Tx) Stripped() int { return len(t.Raw(false)) }
func (t *Tx) Weight() int   { return 3*t.Stripped() + t.Size() }
func (t *Tx) VSize() int    { return (t.Weight() + 3) / 4 }
func (t *Tx) IsCoinbase() bool {
	return len(t.Ins) == 1 && t.Ins[0].Prev == Hash{} && t.Ins[0].Vout == 0xffffffff
}

// SetMerkle computes the merkle root.
func (b *Block) SetMerkle() {
	var l []Hash
	for _, t := range b.Txs {
		l = append(l, t.ID())
	}
	for len(l) > 1 {
		if len(l)%2 == 1 {
			l = append(l, l[len(l)-1])
		}
		var n []Hash
		for i := 0; i < len(l); i += 2 {
			n = append(n, Dsha(append(append([]byte{}, l[i][:]...), l[i+1][:]...)))
		}
		l = n
	}
	if len(l) == 1 {
		b.Merkle = l[0]
	}
	b.hashd = false
}

func (b *Block) Header() []byte {
	var w bytes.Buffer
	u32(&w, b.Version)
	w.Write(b.Prev[:])
	w.Write(b.Merkle[:])
	u32(&w, b.Time)
	u32(&w, b.Bits)
	u32(&w, b.Nonce)
	return w.Bytes()
}
func (b *Block) Hash() Hash {
	if !b.hashd {
		b.hash, b.hashd = Dsha(b.Header()), true
	}
	return b.hash
}
func (b *Block) raw(witness bool) []byte {
	var w bytes.Buffer
	w.Write(b.Header())
	cs(&w, len(b.Txs), b.Wide)
	for _, t := range b.Txs {
		w.Write(t.Raw(witness))
	}
	return w.Bytes()
}
func (b *Block) Raw() []byte   { return b.raw(true) }
func (b *Block) Size() int     { return len(b.raw(true)) }
func (b *Block) Stripped() int { return len(b.raw(false)) }
func (b *Block) Weight() int   { return 3*b.Stripped() + b.Size() }

// Difficulty from the compact target, in exact arithmetic.
func Difficulty(bits uint32) float64 {
	e, m := int(bits>>24), int64(bits&0xffffff)
	t := big.NewRat(m, 1)
	p := func(n int) *big.Rat { return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))) }
	if e >= 3 {
		t.Mul(t, p(8*(e-3)))
	} else {
		// Core shifts right
		t = new(big.Rat).SetInt(new(big.Int).Rsh(big.NewInt(m), uint(8*(3-e))))
	}
	g := new(big.Rat).Mul(big.NewRat(0xffff, 1), p(8*(0x1d-3)))
	f, _ := new(big.Rat).Quo(g, t).Float64()
	return f
}

// MedianTime of a block: times are those of the chain up to and including it.
func MedianTime(times []uint32) uint32 {
	if len(times) > 11 {
		times = times[len(times)-11:]
	}
	s := append([]uint32{}, times...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s[len(s)/2]
}

// Amount as Core prints it.
func Amount(v int64) string { return fmt.Sprintf("%d.%08d", v/100000000, v%100000000) }

// JSONOpts vary what does not matter in the JSON.
type JSONOpts struct {
	UnsignedVersion bool // Core 28 and later print transaction versions unsigned
	Compact         bool // no white space
	ShortAmounts    bool // amounts without trailing zeroes
	NoHex           bool // without the raw transaction
	Prevout         bool // verbosity 3: inputs describe the output they spend (with values and scripts)
	NoWitness       bool
	Next            string
	Height          int
	Median          uint32
}

func (b *Block) JSON(o JSONOpts) []byte {
	var w strings.Builder
	nl, sp, ind := "\n", " ", "  "
	if o.Compact {
		nl, sp, ind = "", "", ""
	}
	kv := func(depth int, k, v string, last bool) {
		w.WriteString(strings.Repeat(ind, depth))
		w.WriteString(strconv.Quote(k) + ":" + sp + v)
		if !last {
			w.WriteString(",")
		}
		w.WriteString(nl)
	}
	q := func(s string) string { return `"` + s + `"` }
	amount := func(v int64) string {
		s := Amount(v)
		if o.ShortAmounts {
			s = strings.TrimRight(s, "0")
			s = strings.TrimSuffix(s, ".")
		}
		return s
	}
	w.WriteString("{" + nl)
	kv(1, "hash", q(b.Hash().Hex()), false)
	kv(1, "confirmations", "12345", false)
	kv(1, "height", fmt.Sprint(o.Height), false)
	kv(1, "version", fmt.Sprint(int32(b.Version)), false)
	kv(1, "versionHex", q(fmt.Sprintf("%08x", b.Version)), false)
	kv(1, "merkleroot", q(b.Merkle.Hex()), false)
	kv(1, "time", fmt.Sprint(b.Time), false)
	kv(1, "mediantime", fmt.Sprint(o.Median), false)
	kv(1, "nonce", fmt.Sprint(b.Nonce), false)
	kv(1, "bits", q(fmt.Sprintf("%08x", b.Bits)), false)
	kv(1, "target", q(strings.Repeat("0", 64)), false)
	kv(1, "difficulty", strconv.FormatFloat(Difficulty(b.Bits), 'g', 16, 64), false)
	kv(1, "chainwork", q(strings.Repeat("0", 64)), false)
	kv(1, "nTx", fmt.Sprint(len(b.Txs)), false)
	if o.Height > 0 || b.Prev != (Hash{}) {
		kv(1, "previousblockhash", q(b.Prev.Hex()), false)
	}
	if o.Next != "" {
		kv(1, "nextblockhash", q(o.Next), false)
	}
	kv(1, "strippedsize", fmt.Sprint(b.Stripped()), false)
	kv(1, "size", fmt.Sprint(b.Size()), false)
	kv(1, "weight", fmt.Sprint(b.Weight()), false)
	w.WriteString(strings.Repeat(ind, 1) + `"tx":` + sp + "[" + nl)
	for n, t := range b.Txs {
		w.WriteString(strings.Repeat(ind, 2) + "{" + nl)
		kv(3, "txid", q(t.ID().Hex()), false)
		kv(3, "hash", q(Dsha(t.Raw(true)).Hex()), false)
		v := fmt.Sprint(int32(t.Version))
		if o.UnsignedVersion {
			v = fmt.Sprint(t.Version)
		}
		kv(3, "version", v, false)
		kv(3, "size", fmt.Sprint(t.Size()), false)
		kv(3, "vsize", fmt.Sprint(t.VSize()), false)
		kv(3, "weight", fmt.Sprint(t.Weight()), false)
		kv(3, "locktime", fmt.Sprint(t.Lock), false)
		w.WriteString(strings.Repeat(ind, 3) + `"vin":` + sp + "[" + nl)
		for m, i := range t.Ins {
			w.WriteString(strings.Repeat(ind, 4) + "{" + nl)
			if t.IsCoinbase() {
				kv(5, "coinbase", q(hex.EncodeToString(i.Script)), false)
			} else {
				kv(5, "txid", q(i.Prev.Hex()), false)
				kv(5, "vout", fmt.Sprint(i.Vout), false)
				kv(5, "scriptSig", `{"asm":"`+hex.EncodeToString(i.Script)+`","hex":"`+hex.EncodeToString(i.Script)+`"}`, false)
			}
			if len(i.Witness) > 0 && !o.NoWitness {
				var ws []string
				for _, x := range i.Witness {
					ws = append(ws, q(hex.EncodeToString(x)))
				}
				kv(5, "txinwitness", "["+strings.Join(ws, ","+sp)+"]", false)
			}
			if o.Prevout && !t.IsCoinbase() {
				kv(5, "prevout", `{"generated":false,"height":1,"value":1.23456789,"scriptPubKey":{"asm":"","desc":"raw()#x","hex":"deadbeef","type":"nonstandard"}}`, false)
			}
			kv(5, "sequence", fmt.Sprint(i.Seq), true)
			w.WriteString(strings.Repeat(ind, 4) + "}")
			if m < len(t.Ins)-1 {
				w.WriteString(",")
			}
			w.WriteString(nl)
		}
		w.WriteString(strings.Repeat(ind, 3) + "]," + nl)
		w.WriteString(strings.Repeat(ind, 3) + `"vout":` + sp + "[" + nl)
		for m, x := range t.Outs {
			w.WriteString(strings.Repeat(ind, 4) + "{" + nl)
			kv(5, "value", amount(x.Value), false)
			kv(5, "n", fmt.Sprint(m), false)
			kv(5, "scriptPubKey", `{"asm":"OP_X \"quoted\" \u20bf","desc":"raw(`+hex.EncodeToString(x.Script)+`)#abcdefgh","hex":"`+hex.EncodeToString(x.Script)+`","address":"1BitcoinEaterAddressDontSendf59kuE","type":"nonstandard"}`, true)
			w.WriteString(strings.Repeat(ind, 4) + "}")
			if m < len(t.Outs)-1 {
				w.WriteString(",")
			}
			w.WriteString(nl)
		}
		w.WriteString(strings.Repeat(ind, 3) + "]," + nl)
		if n > 0 {
			kv(3, "fee", "0.00001000", o.NoHex)
		}
		if !o.NoHex {
			kv(3, "hex", q(hex.EncodeToString(t.Raw(true))), true)
		} else if n == 0 {
			kv(3, "fee", "0.00000000", true)
		}
		w.WriteString(strings.Repeat(ind, 2) + "}")
		if n < len(b.Txs)-1 {
			w.WriteString(",")
		}
		w.WriteString(nl)
	}
	w.WriteString(strings.Repeat(ind, 1) + "]" + nl + "}" + nl)
	return []byte(w.String())
}

// Genesis is the genesis block.
func Genesis() *Block {
	script, _ := hex.DecodeString("04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73")
	out, _ := hex.DecodeString("4104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac")
	b := &Block{Version: 1, Time: 1231006505, Bits: 0x1d00ffff, Nonce: 2083236893,
		Txs: []*Tx{{Version: 1, Ins: []In{{Vout: 0xffffffff, Script: script, Seq: 0xffffffff}}, Outs: []Out{{50 * 100000000, out}}}}}
	b.SetMerkle()
	if b.Hash().Hex() != "000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f" {
		panic("genesis block is wrong: " + b.Hash().Hex())
	}
	return b
}
