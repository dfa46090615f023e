// C08: derived block statistics follow Bitcoin's rules, through both interfaces.
package main

import (
	"fmt"
	"math"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectschi"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectscri"
	"verifharness/kit"
	"verifharness/lib/btc"
)

// stats of one block, as one of the interfaces tells them.
type stats struct {
	hash btc.Hash
	ints map[string]int64
	txs  []map[string]int64
	ids  []btc.Hash
}

func want(b *btc.Block, times []uint32) stats {
	s := stats{hash: b.Hash(), ints: map[string]int64{
		"time": int64(b.Time), "mediantime": int64(btc.MedianTime(times)), "difficulty": int64(math.Round(btc.Difficulty(b.Bits))),
		"size": int64(b.Size()), "strippedsize": int64(b.Stripped()), "weight": int64(b.Weight())}}
	for _, x := range b.Txs {
		s.txs = append(s.txs, map[string]int64{"size": int64(x.Size()), "vsize": int64(x.VSize()), "weight": int64(x.Weight())})
		s.ids = append(s.ids, x.ID())
	}
	return s
}

func check(t *kit.T, what string, got, want stats, tol bool) {
	t.Evals(2)
	if got.hash != want.hash {
		t.Fatalf("hash", "%s: block %s, want %s", what, got.hash.Hex(), want.hash.Hex())
	}
	for k, v := range want.ints {
		t.Evals(1)
		g, ok := got.ints[k]
		if !ok {
			t.Fatalf("missing:"+k, "%s: there is no %s", what, k)
		}
		if k == "difficulty" && math.Abs(float64(g)-float64(v)) <= 1e-12*math.Abs(float64(v)) {
			continue // large difficulties: rounding of the division
		}
		if g != v {
			t.Fatalf("stat:"+k, "%s: %s is %d, want %d", what, k, g, v)
		}
	}
	if len(got.txs) != len(want.txs) {
		t.Fatalf("txs", "%s: %d transactions, want %d", what, len(got.txs), len(want.txs))
	}
	for i := range want.txs {
		t.Evals(1)
		if got.ids[i] != want.ids[i] {
			t.Fatalf("txid", "%s: transaction %d is %s, want %s", what, i, got.ids[i].Hex(), want.ids[i].Hex())
		}
		for k, v := range want.txs[i] {
			t.Evals(1)
			if g, ok := got.txs[i][k]; !ok || g != v {
				t.Fatalf("txstat:"+k, "%s: %s of transaction %d is %d, want %d", what, k, i, g, v)
			}
		}
	}
}

// chain is what both interfaces can do here.
type chain interface {
	genesis() error
	next() (bool, error) // false: no more
	stats() (stats, error)
	in() chan *intrinsicobjects.Block
}

type cri struct {
	h   *intrinsicobjectscri.OneBlockHolder
	cur chainreadinterface.IBlockHandle
}

func (c *cri) in() chan *intrinsicobjects.Block { return c.h.InChan }
func (c *cri) genesis() error                   { c.cur = c.h.GenesisBlock(); return nil }
func (c *cri) next() (bool, error) {
	n, err := c.h.NextBlock(c.cur)
	if err != nil {
		return false, err
	}
	c.cur = n
	return !n.IsInvalid(), nil
}
func (c *cri) stats() (s stats, err error) {
	b, err := c.h.BlockInterface(c.cur)
	if err != nil {
		return
	}
	h, err := b.Hash()
	if err != nil {
		return
	}
	s.hash = btc.Hash(h)
	m, err := b.NonEssentialInts()
	if err != nil {
		return
	}
	s.ints = copyMap(*m)
	n, err := b.TransactionCount()
	if err != nil {
		return
	}
	for i := int64(0); i < n; i++ {
		th, err := b.NthTransaction(i)
		if err != nil {
			return s, err
		}
		x, err := c.h.TransInterface(th)
		if err != nil {
			return s, err
		}
		id, err := x.Hash()
		if err != nil {
			return s, err
		}
		m, err := x.NonEssentialInts()
		if err != nil {
			return s, err
		}
		s.ids, s.txs = append(s.ids, btc.Hash(id)), append(s.txs, copyMap(*m))
	}
	return
}

type chi struct {
	h   *intrinsicobjectschi.OneBlockHolder
	cur chainhandleinterface.BlockHandle
}

func (c *chi) in() chan *intrinsicobjects.Block { return c.h.InChan }
func (c *chi) genesis() (err error)             { c.cur, err = c.h.GenesisBlock(); return }
func (c *chi) next() (bool, error) {
	n, err := c.h.NextBlock(c.cur)
	if err != nil {
		return false, err
	}
	c.cur = n
	return !c.h.IsBlockHandleInvalid(n), nil
}
func (c *chi) stats() (s stats, err error) {
	r := chainhandleinterface.NewBlockReceiver()
	if err = c.h.GetBlockInfo(c.cur, r); err != nil {
		return
	}
	s.hash, s.ints = btc.Hash(r.BlockHash), r.FieldMap
	for _, th := range r.TransactionHandles {
		x := chainhandleinterface.NewBitcoinCoreTransactionReceiver()
		if err = c.h.GetTransactionInfo(th, x); err != nil {
			return
		}
		s.ids, s.txs = append(s.ids, btc.Hash(x.TransactionHash)), append(s.txs, x.FieldMap)
	}
	return
}

func copyMap(m map[string]int64) map[string]int64 {
	r := map[string]int64{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func parsed(t *kit.T, b *btc.Block, height int, js bool) *intrinsicobjects.Block {
	p := new(intrinsicobjects.Block)
	if js {
		if err := intrinsicobjects.ParseJsonBlock(b.JSON(btc.JSONOpts{Height: height, Median: t.R.Uint32(), Compact: true}), p); err != nil {
			t.Fatalf("json", "%v", err)
		}
	} else {
		intrinsicobjects.ParseBinaryBlock(b.Raw(), p)
	}
	return p
}

func newChain(i int) (string, chain) {
	if i%2 == 0 {
		return "plain", &cri{h: intrinsicobjectscri.CreateOneBlockHolder(nil)}
	}
	return "handle", &chi{h: intrinsicobjectschi.CreateOneBlockHolder(nil)}
}

// times draws the timestamp of the next block.
func nextTime(t *kit.T, mode int, prev uint32) uint32 {
	switch mode % 6 {
	case 0: // mostly rising, sometimes falling
		return prev + uint32(t.R.Intn(1200)) - uint32(t.R.Intn(4)*200)
	case 1: // anything
		return t.R.Uint32()
	case 2: // few different ones
		return 1231006505 + uint32(t.R.Intn(4))
	case 3: // falling
		return prev - uint32(t.R.Intn(600))
	case 4: // above and below the sign bit
		return 0x80000000 + uint32(t.R.Intn(2000)) - 1000
	default: // two values
		return []uint32{0, 0xffffffff, prev}[t.R.Intn(3)]
	}
}

var bitsList = []uint32{0x1d00ffff, 0x1c7fffff, 0x1b0404cb, 0x1a05db8b, 0x170331db, 0x1f00ffff, 0x207fffff, 0x1700ffff, 0x1d00fffe, 0x1d00aaaa, 0x18009645}

// targets: every exponent a compact target may have.
func targets() kit.Case {
	return kit.Case{Name: "targets", Run: func(t *kit.T) {
		for e := uint32(1); e <= 0x20; e++ {
			for k := 0; k < 40; k++ {
				m := uint32(1 + t.R.Intn(0x7fffff))
				switch k {
				case 0:
					m = 0x7fffff
				case 1:
					m = 0x00ffff
				case 2:
					m = 0x010000
				}
				if e < 3 { // whole bytes only
					m = m>>(8*(3-e))<<(8*(3-e)) | 0x010000
				}
				b := btc.RandBlock(t.R, false)
				b.Bits = e<<24 | m
				var p intrinsicobjects.Block
				intrinsicobjects.ParseBinaryBlock(b.Raw(), &p)
				t.Evals(1)
				if d := btc.Difficulty(b.Bits); math.Abs(p.Difficulty-d) > 1e-12*d {
					t.Fatalf("target", "compact target %08x: difficulty %v, want %v", b.Bits, p.Difficulty, d)
				}
			}
		}
		t.Distinct("targets")
	}}
}

func history(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("history/%d", k), Run: func(t *kit.T) {
		n := 45
		if k%5 == 0 {
			n = 1 + t.R.Intn(13)
		}
		bs := []*btc.Block{btc.Genesis()}
		for i := 1; i < n; i++ {
			b := btc.RandBlock(t.R, false)
			b.Prev, b.Time = bs[i-1].Hash(), nextTime(t, k, bs[i-1].Time)
			b.Bits = btc.RandBits(t.R)
			if t.R.Intn(2) == 0 {
				b.Bits = bitsList[t.R.Intn(len(bitsList))]
			}
			bs = append(bs, b)
		}
		for v := 0; v < 2; v++ {
			name, c := newChain(v)
			js := (k+v)%2 == 0
			go func() {
				for i, b := range bs {
					c.in() <- parsed(t, b, i, js)
				}
				close(c.in())
			}()
			var times []uint32
			for i, b := range bs {
				var err error
				more := true
				if i == 0 {
					err = c.genesis()
				} else {
					more, err = c.next()
				}
				if err != nil || !more {
					t.Fatalf("refused", "%s interface, block %d: %v, %v", name, i, more, err)
				}
				times = append(times, b.Time)
				if len(times) > 11 {
					times = times[1:]
				}
				s, err := c.stats()
				t.NoErr(err, "stats")
				check(t, fmt.Sprintf("%s interface, json %v, block %d of timestamps %v", name, js, i, times), s, want(b, times), js)
				t.Count("blocks", 1)
			}
			if more, err := c.next(); more || err != nil {
				t.Fatalf("end", "%s interface: after the last block: %v, %v", name, more, err)
			}
			t.Distinct(k%6, js, name, n)
		}
	}}
}

// wrong: blocks that do not belong are refused.
func wrong(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("wrong/%d", k), Run: func(t *kit.T) {
		for i := 0; i < 30; i++ {
			name, c := newChain(i)
			js := i%4 < 2
			good := t.R.Intn(6) // blocks that belong, genesis included
			bs := []*btc.Block{btc.Genesis()}
			for j := 1; j < good+3; j++ {
				b := btc.RandBlock(t.R, false)
				b.Prev = bs[j-1].Hash()
				bs = append(bs, b)
			}
			seq := append([]*btc.Block{}, bs[:good]...)
			kind := t.R.Intn(4)
			if good == 0 {
				kind = t.R.Intn(2)
			}
			switch kind {
			case 0: // one is missing
				seq = append(seq, bs[good+1])
			case 1: // a stranger
				b := btc.RandBlock(t.R, false)
				if good > 0 && t.R.Intn(2) == 0 {
					b.Prev = bs[good-1].Hash()
					b.Prev[t.R.Intn(32)] ^= 1 << uint(t.R.Intn(8)) // nearly right
				}
				seq = append(seq, b)
			case 2: // the same again
				seq = append(seq, bs[good-1])
			case 3: // a null previous hash
				b := btc.RandBlock(t.R, false)
				b.Prev = btc.Hash{}
				seq = append(seq, b)
			}
			go func() {
				for j, b := range seq {
					h := j
					if j == 0 && b.Prev != (btc.Hash{}) {
						h = 5
					}
					c.in() <- parsed(t, b, h, js)
				}
			}()
			for j := 0; j < len(seq); j++ {
				var err error
				more := true
				p := kit.Panics(func() {
					if j == 0 {
						err = c.genesis()
					} else {
						more, err = c.next()
					}
				})
				t.Evals(1)
				refused := p != "" || err != nil
				if j < len(seq)-1 && (refused || !more) {
					t.Fatalf("refused", "%s interface, block %d that belongs: %v, %v, %s", name, j, more, err, p)
				}
				if j == len(seq)-1 && !refused {
					t.Fatalf("accepted", "%s interface, json %v: wrong block (kind %d) taken as block %d", name, js, kind, j)
				}
			}
			t.Count("refused_blocks", 1)
			t.Distinct("wrong", kind, good, name, js)
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C08",
		Rule:     "random chains starting at the real genesis block (timestamps rising, falling, repeated, extreme; targets from easy to hard) are handed block by block to both interfaces, parsed from JSON (whose own mediantime is a decoy) or binary, and every statistic compared with an independent computation; wrong first or following blocks must be refused. Distinct: timestamp mode, format, interface, length, kind of wrong block",
		MinEvals: 50000,
		Cases: func(tier string, seed int64) []kit.Case {
			n := 36
			if tier == "thorough" {
				n = 1500
			}
			cs := []kit.Case{targets()}
			for i := 0; i < n; i++ {
				cs = append(cs, history(i))
				if i%3 == 0 {
					cs = append(cs, wrong(i))
				}
			}
			return cs
		},
	})
}
