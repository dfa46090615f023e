package btc

import "math/rand"

const MaxMoney = 21000000 * 100000000

func RandHash(r *rand.Rand) (h Hash) { r.Read(h[:]); return }

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// Len draws a length, favouring the edges of compact sizes.
func Len(r *rand.Rand, big bool) int {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return []int{1, 2, 252, 253, 254, 255, 256, 257}[r.Intn(8)]
	case 2:
		if big {
			return []int{65534, 65535, 65536, 65537, 70000, 1000}[r.Intn(6)]
		}
		return 300 + r.Intn(300)
	case 3:
		return r.Intn(1000)
	default:
		return 20 + r.Intn(60)
	}
}

// Amounts draws a satoshi value between 0 and 21 million bitcoin.
func RandAmount(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0:
		return int64(r.Intn(3))
	case 1:
		return MaxMoney - int64(r.Intn(3))
	case 2:
		return int64(r.Intn(21000001)) * 100000000
	case 3:
		v := int64(1) << uint(r.Intn(51))
		v += int64(r.Intn(3)) - 1
		if v > MaxMoney {
			v = MaxMoney
		}
		return v
	case 4:
		return r.Int63n(100000000)
	default:
		return r.Int63n(MaxMoney + 1)
	}
}

// RandTx makes any transaction; it need not be consensus valid.
func RandTx(r *rand.Rand, coinbase, big bool) *Tx {
	t := &Tx{Version: []uint32{1, 2, 3, 0, 0xffffffff, 0x80000000, r.Uint32()}[r.Intn(7)], Lock: r.Uint32(), Segwit: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		t.Lock = 0
	}
	nin := 1
	if !coinbase {
		nin = 1 + r.Intn(4)
		if r.Intn(15) == 0 {
			nin = []int{252, 253, 254, 300}[r.Intn(4)]
		}
	}
	for i := 0; i < nin; i++ {
		in := In{Prev: RandHash(r), Vout: uint32(r.Intn(5)), Script: randBytes(r, Len(r, big && nin < 5)), Seq: r.Uint32()}
		if r.Intn(10) == 0 {
			in.Vout = r.Uint32()
		}
		if coinbase {
			in.Prev, in.Vout, in.Script = Hash{}, 0xffffffff, randBytes(r, 2+r.Intn(99))
		} else if r.Intn(10) == 0 {
			// nearly the null hash
			in.Prev = Hash{}
			in.Prev[r.Intn(32)] = 1
		}
		if t.Segwit {
			nw := r.Intn(4)
			if r.Intn(20) == 0 {
				nw = 253
			}
			for k := 0; k < nw; k++ {
				in.Witness = append(in.Witness, randBytes(r, Len(r, big && nw < 4)))
			}
		}
		t.Ins = append(t.Ins, in)
	}
	if t.Segwit {
		// a witness serialisation must have a witness
		any := false
		for _, i := range t.Ins {
			any = any || len(i.Witness) > 0
		}
		if !any {
			t.Ins[0].Witness = [][]byte{randBytes(r, r.Intn(3))}
		}
	}
	nout := 1 + r.Intn(4)
	if r.Intn(15) == 0 {
		nout = []int{252, 253, 254, 300}[r.Intn(4)]
	}
	for i := 0; i < nout; i++ {
		t.Outs = append(t.Outs, Out{RandAmount(r), randBytes(r, Len(r, big && nout < 5))})
	}
	return t
}

func RandBlock(r *rand.Rand, big bool) *Block {
	b := &Block{Version: []uint32{1, 2, 0x20000000, 0xffffffff, r.Uint32()}[r.Intn(5)], Prev: RandHash(r), Time: r.Uint32(), Bits: RandBits(r), Nonce: r.Uint32()}
	n := 1 + r.Intn(6)
	if r.Intn(10) == 0 {
		n = []int{252, 253, 254, 300}[r.Intn(4)]
		big = false
	}
	for i := 0; i < n; i++ {
		b.Txs = append(b.Txs, RandTx(r, i == 0, big))
	}
	b.SetMerkle()
	return b
}

// RandBits is a plausible compact target.
func RandBits(r *rand.Rand) uint32 {
	e := uint32(0x17 + r.Intn(7))
	m := uint32(0x8000 + r.Intn(0x7f8000-0x8000))
	if e == 0x1d {
		m = uint32(0x8000 + r.Intn(0x10000-0x8000))
	}
	return e<<24 | m
}

// HeaderChain makes n blocks from the genesis block, each with one small transaction.
func HeaderChain(r *rand.Rand, n int) []*Block {
	c := []*Block{Genesis()}
	for len(c) < n {
		p := c[len(c)-1]
		b := &Block{Version: 1, Prev: p.Hash(), Time: p.Time + uint32(r.Intn(1200)), Bits: 0x1d00ffff, Nonce: r.Uint32(),
			Txs: []*Tx{{Version: 1, Ins: []In{{Vout: 0xffffffff, Script: randBytes(r, 8), Seq: 1}}, Outs: []Out{{5000000000, randBytes(r, 25)}}}}}
		b.SetMerkle()
		c = append(c, b)
	}
	return c[:n]
}

// ChainOpts shapes a chain.
type ChainOpts struct {
	Blocks  int
	MaxTxs  int  // transactions in a usual block
	Pool    int  // scripts that get used again
	Dups    bool // two coinbase transactions come twice, as in the real chain
	Big     bool // now and then long scripts and witnesses
	Wide    bool // now and then hundreds of inputs, outputs or transactions
	Modern  bool // segwit, big difficulties
	Flood   int  // that many outputs in every coinbase
	Giant   int  // the block at this height has a transaction of more than 65536 outputs, the next one of more than 65536 inputs
	OneAddr bool // nearly everything pays one address
}

// RandChainOpts draws a shape.
func RandChainOpts(r *rand.Rand, blocks int) ChainOpts {
	return ChainOpts{Blocks: blocks, MaxTxs: 1 + r.Intn(8), Pool: []int{1, 3, 10, 100}[r.Intn(4)], Dups: r.Intn(2) == 0 && blocks > 8,
		Big: r.Intn(4) == 0, Wide: r.Intn(3) == 0, Modern: r.Intn(2) == 0, OneAddr: r.Intn(6) == 0}
}

type outpoint struct {
	tx   Hash
	vout uint32
	val  int64
}

// halfway says a difficulty is about halfway between integers, where the two
// formats need not round the same way.
func halfway(bits uint32) bool {
	d := Difficulty(bits)
	f := d - float64(int64(d))
	return f > 0.49 && f < 0.51
}

// Chain makes a linked chain from the genesis block in which every input spends
// an output that is there and unspent.
func Chain(r *rand.Rand, o ChainOpts) []*Block {
	c := []*Block{Genesis()}
	var utxo []outpoint
	var pool [][]byte
	script := func() []byte {
		if o.OneAddr && r.Intn(10) > 0 && len(pool) > 0 {
			return pool[0]
		}
		if len(pool) > 0 && r.Intn(3) == 0 {
			return pool[r.Intn(len(pool))]
		}
		if r.Intn(40) == 0 {
			return c[0].Txs[0].Outs[0].Script // the address of the genesis block
		}
		s := randBytes(r, 22+r.Intn(46))
		switch r.Intn(30) {
		case 0:
			s = nil
		case 1:
			s = randBytes(r, 1+r.Intn(3))
		case 2:
			s = randBytes(r, Len(r, o.Big))
		}
		if len(pool) < o.Pool {
			pool = append(pool, s)
		}
		return s
	}
	witness := func(t *Tx) {
		if !o.Modern || r.Intn(2) == 0 {
			return
		}
		t.Segwit = true
		for i := range t.Ins {
			for k := r.Intn(4); k > 0 || (i == 0 && len(t.Ins[0].Witness) == 0); k-- {
				t.Ins[i].Witness = append(t.Ins[i].Witness, randBytes(r, Len(r, o.Big && r.Intn(10) == 0)))
			}
		}
	}
	bits := uint32(0x1d00ffff)
	var unspendable []*Tx // coinbases that come twice
	for len(c) < o.Blocks {
		h := len(c)
		p := c[h-1]
		if r.Intn(12) == 0 && o.Modern {
			for bits = RandBits(r); halfway(bits); bits = RandBits(r) {
			}
		}
		b := &Block{Version: []uint32{1, 2, 4, 0x20000000, r.Uint32()}[r.Intn(5)], Prev: p.Hash(), Bits: bits, Nonce: r.Uint32()}
		b.Time = p.Time + uint32(r.Intn(3600))
		if r.Intn(5) == 0 {
			b.Time = p.Time - uint32(r.Intn(5000))
		}
		cb := &Tx{Version: 1, Ins: []In{{Vout: 0xffffffff, Seq: 0xffffffff, Script: append([]byte{3, byte(h), byte(h >> 8), byte(h >> 16)}, randBytes(r, 4+r.Intn(80))...)}}}
		var fresh []outpoint
		add := func(t *Tx, spendable bool) {
			b.Txs = append(b.Txs, t)
			if !spendable {
				return
			}
			id := t.ID()
			for i, out := range t.Outs {
				if r.Intn(4) > 0 {
					fresh = append(fresh, outpoint{id, uint32(i), out.Value})
				}
			}
		}
		nout := 1
		if r.Intn(4) == 0 {
			nout = 1 + r.Intn(4)
		}
		if o.Wide && r.Intn(20) == 0 {
			nout = []int{252, 253, 260}[r.Intn(3)]
		}
		if o.Flood > 0 {
			nout = o.Flood
		}
		if o.Giant > 0 && h == o.Giant {
			nout = 90000
		}
		for i := 0; i < nout; i++ {
			v := int64(5000000000)
			if r.Intn(6) == 0 {
				v = RandAmount(r)
			}
			cb.Outs = append(cb.Outs, Out{v, script()})
		}
		witness(cb)
		twice := o.Dups && (h == o.Blocks/4 || h == o.Blocks/4+1)
		if o.Dups && (h == o.Blocks/2 || h == o.Blocks/2+2) && len(unspendable) > 0 {
			cb = unspendable[0]
			unspendable = unspendable[1:]
			add(cb, false)
		} else {
			add(cb, !twice)
			if twice {
				unspendable = append(unspendable, cb)
			}
		}
		n := r.Intn(o.MaxTxs)
		if o.Giant > 0 && h == o.Giant+1 {
			n++
		}
		if o.Wide && r.Intn(25) == 0 {
			n = []int{251, 252, 253, 300}[r.Intn(4)]
		}
		for k := 0; k < n; k++ {
			// outputs of this block can be spent in it
			if r.Intn(2) == 0 {
				utxo = append(utxo, fresh...)
				fresh = nil
			}
			if len(utxo) == 0 {
				break
			}
			t := &Tx{Version: []uint32{1, 2, 0xffffffff}[r.Intn(3)], Lock: uint32(r.Intn(3)) * r.Uint32()}
			nin := 1 + r.Intn(3)
			if o.Wide && r.Intn(40) == 0 {
				nin = 260
			}
			if o.Giant > 0 && h == o.Giant+1 && k == 0 {
				nin = 65537
			}
			sum := int64(0)
			for i := 0; i < nin && len(utxo) > 0; i++ {
				j := r.Intn(len(utxo))
				if r.Intn(3) == 0 {
					j = len(utxo) - 1
				}
				u := utxo[j]
				utxo[j] = utxo[len(utxo)-1]
				utxo = utxo[:len(utxo)-1]
				sum += u.val
				t.Ins = append(t.Ins, In{Prev: u.tx, Vout: u.vout, Script: randBytes(r, r.Intn(110)), Seq: r.Uint32()})
			}
			nout := 1 + r.Intn(3)
			if o.Wide && r.Intn(40) == 0 {
				nout = []int{252, 253, 256, 300}[r.Intn(4)]
			}
			for i := 0; i < nout; i++ {
				v := int64(0)
				if sum > 0 {
					v = r.Int63n(sum + 1)
				}
				if v > MaxMoney {
					v = MaxMoney
				}
				sum -= v
				t.Outs = append(t.Outs, Out{v, script()})
			}
			witness(t)
			add(t, true)
		}
		utxo = append(utxo, fresh...)
		b.SetMerkle()
		c = append(c, b)
	}
	return c[:o.Blocks]
}

// Fork makes a chain that has the first keep blocks of another and then other blocks with the same transactions.
func Fork(r *rand.Rand, chain []*Block, keep int) []*Block {
	c := append([]*Block{}, chain[:keep]...)
	for _, b := range chain[keep:] {
		x := *b
		x.Nonce += 1 + uint32(r.Intn(1<<30))
		if len(c) > 0 {
			x.Prev = c[len(c)-1].Hash()
		}
		x.SetMerkle() // and forget the hash
		c = append(c, &x)
	}
	return c
}
