package store

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"verifharness/kit"
	"verifharness/lib/btc"
)

// View is an open store.
type View struct {
	Bc  chainreadinterface.IBlockChain
	Hc  chainreadinterface.IHandleCreator
	Par chainstorage.IParents
	Pf  chainstorage.IPrivilegedFiles
}

// OpenReadOnly opens a store.
func OpenReadOnly(path string, delegated, inRam, hashesInRam bool) (v View, err error) {
	acc, err := chainstorage.NewConcreteAppendableChainCreator(path, nil, nil, delegated, inRam, hashesInRam)
	if err != nil {
		return v, err
	}
	v.Bc, v.Hc, v.Par, v.Pf, err = acc.OpenReadOnly()
	return v, err
}

// Opts of a comparison.
type Opts struct {
	BlockNeis, TransNeis []string // what must be stored, exactly
	Absent               int      // how many absent hashes to look for
	Addrs                int      // about how many lists of addresses to read by each route (each reads a whole file); 0: 60
	DupRepeat            bool     // the later positions of a repeated transaction hash were never written (index built from lists)
}

type checker struct {
	t    *kit.T
	what string
	m    *Model
	v    View
	n    int64
	r    *rand.Rand
}

func (c *checker) eq(sig, what string, got, want interface{}) {
	c.n++
	if got != want {
		c.t.Evals(c.n)
		c.t.Fatalf(sig, "%s: %s is %v, want %v", c.what, what, got, want)
	}
}
func (c *checker) ok(sig, what string, err error) {
	if err != nil {
		c.t.Fatalf(sig, "%s: %s: %v", c.what, what, err)
	}
}

func hex(h ih.Sha256) string { return btc.Hash(h).Hex() }

// Verify compares a store with the model over every route.
func Verify(t *kit.T, what string, m *Model, v View, o Opts) {
	c := &checker{t: t, what: what, m: m, v: v}
	defer func() { t.Evals(c.n); c.n = 0 }()
	c.blocks(o)
	c.transactions(o)
	c.inputs()
	c.r = rand.New(rand.NewSource(int64(len(m.Txos))*31 + int64(len(m.Txs))))
	if o.Addrs == 0 {
		o.Addrs = 60
	}
	c.outputs(o)
	c.addresses(o)
	if v.Par != nil {
		c.parents()
	}
	if v.Pf != nil {
		c.files()
	}
	if v.Hc != nil {
		c.absent(o)
	}
	t.Count("stores_compared", 1)
	t.Count("blocks_compared", int64(len(m.Blocks)))
	t.Count("transactions_compared", int64(len(m.Txs)))
	t.Count("inputs_compared", int64(len(m.Txis)))
	t.Count("outputs_compared", int64(len(m.Txos)))
	t.Count("addresses_compared", int64(len(m.AddrTxos)))
}

func (c *checker) neis(what string, got *map[string]int64, err error, want map[string]int64, names []string) {
	c.ok("neis-err", what+" statistics", err)
	c.eq("neis-count", what+" number of statistics", len(*got), len(names))
	for _, n := range names {
		g, ok := (*got)[n]
		if !ok {
			c.t.Fatalf("neis-missing", "%s: %s has no %s", c.what, what, n)
		}
		c.eq("nei-"+n, what+" "+n, g, want[n])
	}
}

func (c *checker) block(what string, b chainreadinterface.IBlock, h int, o Opts) {
	w := c.m.Blocks[h]
	c.eq("block-invalid", what+" is invalid", b.IsInvalid(), false)
	c.eq("block-height", what+" height", b.Height(), int64(h))
	hash, err := b.Hash()
	c.ok("block-hash-err", what+" hash", err)
	c.eq("block-hash", what+" hash", hex(hash), w.Hash.Hex())
	n, err := b.TransactionCount()
	c.ok("block-count-err", what+" transaction count", err)
	c.eq("block-count", what+" transaction count", n, int64(w.NTx))
	for i := 0; i < w.NTx; i++ {
		ht, err := b.NthTransaction(int64(i))
		c.ok("block-nth-err", what+" NthTransaction", err)
		c.eq("block-nth", fmt.Sprintf("%s transaction %d height", what, i), ht.Height(), int64(w.FirstTx+i))
		if i > 3 && i < w.NTx-2 {
			continue
		}
		th, err := ht.Hash()
		c.ok("block-nth-hash-err", what+" NthTransaction hash", err)
		c.txHash("block-nth-hash", fmt.Sprintf("%s transaction %d hash", what, i), w.FirstTx+i, th)
	}
	neis, err := b.NonEssentialInts()
	c.neis(what, neis, err, w.Neis, o.BlockNeis)
}

// txHash: a later position of a repeated hash is not indexed and may read as zero.
func (c *checker) txHash(sig, what string, i int, got ih.Sha256) {
	w := c.m.Txs[i]
	if w.First != i && got == (ih.Sha256{}) {
		return
	}
	c.eq(sig, what, hex(got), w.Hash.Hex())
}

func (c *checker) blocks(o Opts) {
	bc, m := c.v.Bc, c.m
	last, err := bc.LatestBlock()
	c.ok("latest-block-err", "LatestBlock", err)
	if len(m.Blocks) == 0 {
		c.eq("latest-block", "LatestBlock of an empty chain invalid", last.IsInvalid(), true)
		return
	}
	c.eq("latest-block-invalid", "LatestBlock invalid", last.IsInvalid(), false)
	c.eq("latest-block", "LatestBlock height", last.Height(), int64(len(m.Blocks)-1))
	// forward
	hb := bc.GenesisBlock()
	for h := range m.Blocks {
		what := fmt.Sprintf("block %d (walking forward)", h)
		if hb.IsInvalid() {
			c.t.Fatalf("walk-blocks", "%s: the walk from genesis ends before block %d of %d", c.what, h, len(m.Blocks))
		}
		b, err := bc.BlockInterface(hb)
		c.ok("block-err", what, err)
		c.block(what, b, h, o)
		hb, err = bc.NextBlock(hb)
		c.ok("next-block-err", what+" NextBlock", err)
	}
	c.eq("walk-blocks-end", "block after the last is invalid", hb.IsInvalid(), true)
	// backward
	hb = last
	for h := len(m.Blocks) - 1; h >= 0; h-- {
		c.eq("parent-block", "height of a block walking back", hb.Height(), int64(h))
		hb = bc.ParentBlock(hb)
	}
	c.eq("parent-genesis", "parent of the genesis block is invalid", hb.IsInvalid(), true)
	if c.v.Hc == nil {
		return
	}
	for h, w := range m.Blocks {
		if len(m.Blocks) > 50 && h%7 != 0 && h < len(m.Blocks)-3 {
			continue
		}
		hb, err := c.v.Hc.BlockHandleByHeight(int64(h))
		c.ok("block-by-height-err", "BlockHandleByHeight", err)
		b, err := bc.BlockInterface(hb)
		c.ok("block-by-height-err", "BlockInterface", err)
		c.block(fmt.Sprintf("block %d (by height)", h), b, h, o)
		hb, err = c.v.Hc.BlockHandleByHash(ih.Sha256(w.Hash))
		c.ok("block-by-hash-err", fmt.Sprintf("BlockHandleByHash of block %d", h), err)
		b, err = bc.BlockInterface(hb)
		c.ok("block-by-hash-err", "BlockInterface", err)
		c.block(fmt.Sprintf("block %d (by hash)", h), b, h, o)
		b, err = bc.BlockInterface(hashOnlyBlock{w.Hash})
		c.ok("block-by-hash-only-err", "BlockInterface of a handle with only a hash", err)
		c.eq("block-by-hash-only", "height of a block found by a handle with only a hash", b.Height(), int64(h))
	}
}

// a handle of another package, with only a hash
type hashOnlyBlock struct{ h btc.Hash }

func (b hashOnlyBlock) Height() int64            { return -1 }
func (b hashOnlyBlock) Hash() (ih.Sha256, error) { return ih.Sha256(b.h), nil }
func (b hashOnlyBlock) HeightSpecified() bool    { return false }
func (b hashOnlyBlock) HashSpecified() bool      { return true }
func (b hashOnlyBlock) IsBlockHandle()           {}
func (b hashOnlyBlock) IsInvalid() bool          { return false }

type hashOnlyTrans struct{ h btc.Hash }

func (b hashOnlyTrans) Height() int64               { return -1 }
func (b hashOnlyTrans) Hash() (ih.Sha256, error)    { return ih.Sha256(b.h), nil }
func (b hashOnlyTrans) HeightSpecified() bool       { return false }
func (b hashOnlyTrans) HashSpecified() bool         { return true }
func (b hashOnlyTrans) IndicesPath() (int64, int64) { return -1, -1 }
func (b hashOnlyTrans) IndicesPathSpecified() bool  { return false }
func (b hashOnlyTrans) IsTransHandle()              {}
func (b hashOnlyTrans) IsInvalid() bool             { return false }

func (c *checker) trans(what string, x chainreadinterface.ITransaction, i int, o Opts) {
	w := c.m.Txs[i]
	c.eq("trans-height", what+" height", x.Height(), int64(i))
	c.eq("trans-invalid", what+" invalid", x.IsInvalid(), false)
	hash, err := x.Hash()
	c.ok("trans-hash-err", what+" hash", err)
	c.txHash("trans-hash", what+" hash", i, hash)
	n, err := x.TxiCount()
	c.ok("txi-count-err", what+" input count", err)
	c.eq("txi-count", what+" input count", n, int64(w.NTxi))
	for k := 0; k < w.NTxi; k++ {
		ht, err := x.NthTxi(int64(k))
		c.ok("nth-txi-err", what+" NthTxi", err)
		ti, err := c.v.Bc.TxiInterface(ht)
		c.ok("nth-txi-err", what+" TxiInterface", err)
		c.eq("nth-txi", fmt.Sprintf("%s input %d height", what, k), ti.TxiHeight(), int64(w.FirstTxi+k))
	}
	n, err = x.TxoCount()
	c.ok("txo-count-err", what+" output count", err)
	c.eq("txo-count", what+" output count", n, int64(w.NTxo))
	for k := 0; k < w.NTxo; k++ {
		ht, err := x.NthTxo(int64(k))
		c.ok("nth-txo-err", what+" NthTxo", err)
		to, err := c.v.Bc.TxoInterface(ht)
		c.ok("nth-txo-err", what+" TxoInterface", err)
		c.eq("nth-txo", fmt.Sprintf("%s output %d height", what, k), to.TxoHeight(), int64(w.FirstTxo+k))
		if k > 3 && k < w.NTxo-2 {
			continue
		}
		s, err := to.Satoshis()
		c.ok("nth-txo-sats-err", what+" Satoshis", err)
		c.eq("nth-txo-sats", fmt.Sprintf("%s output %d satoshis", what, k), s, c.m.Txos[w.FirstTxo+k].Sats)
	}
	all, err := x.AllTxoSatoshis()
	c.ok("all-sats-err", what+" AllTxoSatoshis", err)
	c.eq("all-sats-count", what+" AllTxoSatoshis count", len(all), w.NTxo)
	for k, s := range all {
		c.eq("all-sats", fmt.Sprintf("%s AllTxoSatoshis[%d]", what, k), s, c.m.Txos[w.FirstTxo+k].Sats)
	}
	neis, err := x.NonEssentialInts()
	c.neis(what, neis, err, w.Neis, o.TransNeis)
}

func (c *checker) transactions(o Opts) {
	bc, m := c.v.Bc, c.m
	last, err := bc.LatestTransaction()
	c.ok("latest-trans-err", "LatestTransaction", err)
	if len(m.Txs) == 0 {
		c.eq("latest-trans", "LatestTransaction of an empty chain invalid", last.IsInvalid(), true)
		return
	}
	c.eq("latest-trans-invalid", "LatestTransaction invalid", last.IsInvalid(), false)
	c.eq("latest-trans", "LatestTransaction height", last.Height(), int64(len(m.Txs)-1))
	ht, err := bc.GenesisTransaction()
	c.ok("genesis-trans-err", "GenesisTransaction", err)
	for i := range m.Txs {
		what := fmt.Sprintf("transaction %d (walking forward)", i)
		if ht.IsInvalid() {
			c.t.Fatalf("walk-trans", "%s: the walk from the genesis transaction ends before transaction %d of %d", c.what, i, len(m.Txs))
		}
		x, err := bc.TransInterface(ht)
		c.ok("trans-err", what, err)
		c.trans(what, x, i, o)
		ht, err = bc.NextTransaction(ht)
		c.ok("next-trans-err", what+" NextTransaction", err)
	}
	c.eq("walk-trans-end", "transaction after the last is invalid", ht.IsInvalid(), true)
	ht = last
	for i := len(m.Txs) - 1; i >= 0; i-- {
		c.eq("prev-trans", "height of a transaction walking back", ht.Height(), int64(i))
		ht = bc.PreviousTransaction(ht)
	}
	c.eq("prev-genesis-trans", "transaction before the first is invalid", ht.IsInvalid(), true)
	if c.v.Hc == nil {
		return
	}
	for i, w := range m.Txs {
		if len(m.Txs) > 60 && i%5 != 0 && w.First == i && i < len(m.Txs)-3 {
			continue
		}
		ht, err := c.v.Hc.TransactionHandleByHeight(int64(i))
		c.ok("trans-by-height-err", "TransactionHandleByHeight", err)
		x, err := bc.TransInterface(ht)
		c.ok("trans-by-height-err", "TransInterface", err)
		c.trans(fmt.Sprintf("transaction %d (by height)", i), x, i, o)
		ht, err = c.v.Hc.TransactionHandleByHash(ih.Sha256(w.Hash))
		c.ok("trans-by-hash-err", fmt.Sprintf("TransactionHandleByHash of transaction %d", i), err)
		c.eq("trans-by-hash", fmt.Sprintf("height of transaction %d found by hash", i), ht.Height(), int64(w.First))
		x, err = bc.TransInterface(ht)
		c.ok("trans-by-hash-err", "TransInterface", err)
		c.trans(fmt.Sprintf("transaction %d (by hash)", w.First), x, w.First, o)
		x, err = bc.TransInterface(hashOnlyTrans{w.Hash})
		c.ok("trans-by-hash-only-err", "TransInterface of a handle with only a hash", err)
		c.eq("trans-by-hash-only", "height of a transaction found by a handle with only a hash", x.Height(), int64(w.First))
	}
}

func (c *checker) inputs() {
	if c.v.Hc == nil {
		return
	}
	for i, w := range c.m.Txis {
		ht, err := c.v.Hc.TxiHandleByHeight(int64(i))
		c.ok("txi-by-height-err", "TxiHandleByHeight", err)
		x, err := c.v.Bc.TxiInterface(ht)
		c.ok("txi-by-height-err", "TxiInterface", err)
		c.eq("txi-height", fmt.Sprintf("height of input %d", i), x.TxiHeight(), int64(i))
		src, err := x.SourceTxo()
		c.ok("txi-source-err", fmt.Sprintf("source of input %d", i), err)
		c.eq("txi-source-parent", fmt.Sprintf("source of input %d has a parent", i), src.ParentSpecified(), true)
		c.eq("txi-source-trans", fmt.Sprintf("transaction spent by input %d", i), src.ParentTrans().Height(), int64(w.Src))
		c.eq("txi-source-vout", fmt.Sprintf("output index spent by input %d", i), src.ParentIndex(), w.Vout)
		o, err := c.v.Bc.TxoInterface(src)
		c.ok("txi-source-txo-err", fmt.Sprintf("output spent by input %d", i), err)
		c.eq("txi-source-txo", fmt.Sprintf("height of the output spent by input %d", i), o.TxoHeight(), int64(c.m.Txs[w.Src].FirstTxo)+w.Vout)
		s, err := o.Satoshis()
		c.ok("txi-source-sats-err", "satoshis of a spent output", err)
		c.eq("txi-source-sats", fmt.Sprintf("satoshis spent by input %d", i), s, c.m.Txos[c.m.Txs[w.Src].FirstTxo+int(w.Vout)].Sats)
		// by parent and index
		if i%3 == 0 {
			y, err := c.v.Bc.TxiInterface(byParent{hashOnlyTrans{c.m.Txs[w.Tx].Hash}, int64(i - c.m.Txs[w.Tx].FirstTxi)})
			if c.m.Txs[w.Tx].First == w.Tx {
				c.ok("txi-by-parent-err", "TxiInterface by parent", err)
				c.eq("txi-by-parent", fmt.Sprintf("height of input %d found by parent", i), y.TxiHeight(), int64(i))
			}
		}
	}
}

type byParent struct {
	t chainreadinterface.ITransHandle
	n int64
}

func (b byParent) ParentTrans() chainreadinterface.ITransHandle { return b.t }
func (b byParent) ParentIndex() int64                           { return b.n }
func (b byParent) TxiHeight() int64                             { return -1 }
func (b byParent) TxoHeight() int64                             { return -1 }
func (b byParent) IndicesPath() (int64, int64, int64)           { return -1, -1, -1 }
func (b byParent) ParentSpecified() bool                        { return true }
func (b byParent) TxiHeightSpecified() bool                     { return false }
func (b byParent) TxoHeightSpecified() bool                     { return false }
func (b byParent) IndicesPathSpecified() bool                   { return false }

func (c *checker) outputs(o Opts) {
	if c.v.Hc == nil {
		return
	}
	for i, w := range c.m.Txos {
		ht, err := c.v.Hc.TxoHandleByHeight(int64(i))
		c.ok("txo-by-height-err", "TxoHandleByHeight", err)
		x, err := c.v.Bc.TxoInterface(ht)
		c.ok("txo-by-height-err", "TxoInterface", err)
		c.eq("txo-height", fmt.Sprintf("height of output %d", i), x.TxoHeight(), int64(i))
		s, err := x.Satoshis()
		c.ok("txo-sats-err", "Satoshis", err)
		c.eq("txo-sats", fmt.Sprintf("satoshis of output %d", i), s, w.Sats)
		ha, err := x.Address()
		c.ok("txo-addr-err", "Address", err)
		a, err := c.v.Bc.AddressInterface(ha)
		c.ok("txo-addr-err", "AddressInterface", err)
		c.eq("txo-addr-height", fmt.Sprintf("address height of output %d", i), a.Height(), int64(w.Addr))
		if c.r.Intn(len(c.m.Txos)) < o.Addrs {
			c.eq("txo-addr", fmt.Sprintf("address hash of output %d", i), hex(a.Hash()), c.m.AddrHash[w.Addr].Hex())
		}
		if i%3 == 0 && c.m.Txs[w.Tx].First == w.Tx {
			y, err := c.v.Bc.TxoInterface(byParent{hashOnlyTrans{c.m.Txs[w.Tx].Hash}, int64(i - c.m.Txs[w.Tx].FirstTxo)})
			c.ok("txo-by-parent-err", "TxoInterface by parent", err)
			c.eq("txo-by-parent", fmt.Sprintf("height of output %d found by parent", i), y.TxoHeight(), int64(i))
		}
	}
}

func (c *checker) address(what string, a chainreadinterface.IAddress, h int) {
	want := c.m.AddrTxos[h]
	n, err := a.TxoCount()
	c.ok("addr-count-err", what+" output count", err)
	c.eq("addr-count", what+" output count", n, int64(len(want)))
	for k, o := range want {
		ht, err := a.NthTxo(int64(k))
		c.ok("addr-nth-err", what+" NthTxo", err)
		x, err := c.v.Bc.TxoInterface(ht)
		c.ok("addr-nth-err", what+" TxoInterface", err)
		c.eq("addr-nth", fmt.Sprintf("%s output %d of %d", what, k, len(want)), x.TxoHeight(), int64(o))
	}
	c.eq("addr-hash", what+" hash", hex(a.Hash()), c.m.AddrHash[h].Hex())
}

func (c *checker) addresses(o Opts) {
	if c.v.Hc == nil {
		return
	}
	var hs []int
	for h := range c.m.AddrTxos {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	var again []int // those with several outputs, all of which should be among the ones read
	for _, h := range hs {
		if len(c.m.AddrTxos[h]) > 1 {
			again = append(again, h)
		}
	}
	for _, h := range hs {
		lists := c.r.Intn(len(hs)) < o.Addrs || len(c.m.AddrTxos[h]) > 1 && c.r.Intn(len(again)) < o.Addrs
		hash := ih.Sha256(c.m.AddrHash[h])
		ha, err := c.v.Hc.AddressHandleByHash(hash)
		c.ok("addr-by-hash-err", fmt.Sprintf("AddressHandleByHash of address %d", h), err)
		c.eq("addr-by-hash", "height of an address found by hash", ha.Height(), int64(h))
		a, err := c.v.Bc.AddressInterface(ha)
		c.ok("addr-err", "AddressInterface", err)
		if lists {
			c.address(fmt.Sprintf("address %d (by hash)", h), a, h)
		}
		a, err = c.v.Bc.AddressInterface(&sAddr{hash}) // a handle with only the hash
		c.ok("addr-err", "AddressInterface", err)
		if lists && c.r.Intn(3) == 0 {
			c.address(fmt.Sprintf("address %d (hash only)", h), a, h)
		}
		ha, err = c.v.Hc.AddressHandleByHeight(int64(h))
		c.ok("addr-by-height-err", "AddressHandleByHeight", err)
		a, err = c.v.Bc.AddressInterface(ha)
		c.ok("addr-err", "AddressInterface", err)
		if lists && c.r.Intn(3) == 0 {
			c.address(fmt.Sprintf("address %d (by height)", h), a, h)
		}
		ha, err = c.v.Hc.AddressHandleByString(string(c.m.Script[h]))
		c.ok("addr-by-string-err", "AddressHandleByString", err)
		c.eq("addr-by-string", "height of an address found by its script", ha.Height(), int64(h))
	}
}

func (c *checker) parents() {
	for i, w := range c.m.Txs {
		p, err := c.v.Par.ParentBlockOfTrans(int64(i))
		c.ok("parent-err", "ParentBlockOfTrans", err)
		c.eq("parent-trans", fmt.Sprintf("parent block of transaction %d", i), p, int64(w.Block))
	}
	for i, w := range c.m.Txis {
		p, err := c.v.Par.ParentTransOfTxi(int64(i))
		c.ok("parent-err", "ParentTransOfTxi", err)
		c.eq("parent-txi", fmt.Sprintf("parent transaction of input %d", i), p, int64(w.Tx))
	}
	for i, w := range c.m.Txos {
		p, err := c.v.Par.ParentTransOfTxo(int64(i))
		c.ok("parent-err", "ParentTransOfTxo", err)
		c.eq("parent-txo", fmt.Sprintf("parent transaction of output %d", i), p, int64(w.Tx))
	}
	_, err := c.v.Par.ParentTransOfTxi(int64(len(c.m.Txis)))
	c.eq("parent-beyond", "parent of an input beyond the end gives an error", err != nil, true)
	_, err = c.v.Par.ParentTransOfTxo(int64(len(c.m.Txos)))
	c.eq("parent-beyond", "parent of an output beyond the end gives an error", err != nil, true)
}

func (c *checker) file(what string, f wordfile.ReadAtWordCounter, n int, want func(i int) int64) {
	k, err := f.CountWords()
	c.ok("file-count-err", what+" count", err)
	c.eq("file-count", what+" count", k, int64(n))
	for i := 0; i < n; i++ {
		g, err := f.ReadWordAt(int64(i))
		c.ok("file-read-err", what, err)
		c.eq("file-"+what, fmt.Sprintf("%s[%d]", what, i), g, want(i))
	}
	_, err = f.ReadWordAt(int64(n))
	c.eq("file-beyond", what+" beyond the end gives an error", err != nil, true)
}

func (c *checker) files() {
	m, p := c.m, c.v.Pf
	c.file("value", p.TxoSatsFile(), len(m.Txos), func(i int) int64 { return m.Txos[i].Sats })
	c.file("tx", p.TxiTxFile(), len(m.Txis), func(i int) int64 { return int64(m.Txis[i].Src) })
	c.file("vout", p.TxiVoutFile(), len(m.Txis), func(i int) int64 { return m.Txis[i].Vout })
	c.file("firsttxi", p.TransFirstTxiFile(), len(m.Txs), func(i int) int64 { return int64(m.Txs[i].FirstTxi) })
	c.file("firsttxo", p.TransFirstTxoFile(), len(m.Txs), func(i int) int64 { return int64(m.Txs[i].FirstTxo) })
}

// dead says that a handle or object outside the chain gives nothing.
func (c *checker) deadBlock(what string, hb chainreadinterface.IBlockHandle, err error) {
	c.n++
	if err != nil || hb == nil || hb.IsInvalid() {
		return
	}
	b, err := c.v.Bc.BlockInterface(hb)
	if err != nil || b == nil || b.IsInvalid() {
		return
	}
	if n, err := b.TransactionCount(); err == nil {
		c.t.Fatalf("beyond-block", "%s: %s has %d transactions", c.what, what, n)
	}
	if h, err := b.Hash(); err == nil {
		for i, w := range c.m.Blocks {
			if ih.Sha256(w.Hash) == h {
				c.t.Fatalf("beyond-block", "%s: %s is block %d", c.what, what, i)
			}
		}
	}
}
func (c *checker) deadTrans(what string, ht chainreadinterface.ITransHandle, err error) {
	c.n++
	if err != nil || ht == nil || ht.IsInvalid() {
		return
	}
	x, err := c.v.Bc.TransInterface(ht)
	if err != nil || x == nil || x.IsInvalid() {
		return
	}
	if n, err := x.TxoCount(); err == nil {
		c.t.Fatalf("beyond-trans", "%s: %s has %d outputs", c.what, what, n)
	}
	if n, err := x.TxiCount(); err == nil {
		c.t.Fatalf("beyond-trans", "%s: %s has %d inputs", c.what, what, n)
	}
	if s, err := x.AllTxoSatoshis(); err == nil {
		c.t.Fatalf("beyond-trans", "%s: %s has outputs %v", c.what, what, s)
	}
	if h, err := x.Hash(); err == nil {
		for i, w := range c.m.Txs {
			if ih.Sha256(w.Hash) == h {
				c.t.Fatalf("beyond-trans", "%s: %s is transaction %d", c.what, what, i)
			}
		}
	}
}
func (c *checker) deadAddr(what string, ha chainreadinterface.IAddressHandle, err error) {
	c.n++
	if err != nil || ha == nil {
		return
	}
	a, err := c.v.Bc.AddressInterface(ha)
	if err != nil || a == nil {
		return
	}
	if n, err := a.TxoCount(); err == nil {
		c.t.Fatalf("beyond-addr", "%s: %s has %d outputs", c.what, what, n)
	}
}

func (c *checker) absent(o Opts) {
	r := rand.New(rand.NewSource(int64(len(c.m.Txos))*7919 + int64(len(c.m.Blocks))))
	hc, m := c.v.Hc, c.m
	all := map[btc.Hash]bool{}
	for _, l := range [][]btc.Hash{m.BlkHashes, m.TrnHashes, m.AddrHashes} {
		for _, h := range l {
			all[h] = true
		}
	}
	for i := 0; i < o.Absent; i++ {
		h := btc.RandHash(r)
		for _, l := range [][]btc.Hash{m.BlkHashes, m.TrnHashes, m.AddrHashes} {
			switch r.Intn(4) {
			case 0: // differing in one bit from one that is there
				h = l[r.Intn(len(l))]
				h[r.Intn(32)] ^= 1 << uint(r.Intn(8))
			case 1: // same start
				copy(h[:8], l[r.Intn(len(l))][:8])
			case 2: // of another kind
				k := [][]btc.Hash{m.BlkHashes, m.TrnHashes, m.AddrHashes}[r.Intn(3)]
				h = k[r.Intn(len(k))]
			}
			in := func(l []btc.Hash) bool {
				for _, x := range l {
					if x == h {
						return true
					}
				}
				return false
			}
			if !in(m.BlkHashes) {
				hb, err := hc.BlockHandleByHash(ih.Sha256(h))
				c.deadBlock("the block of an absent hash", hb, err)
				c.deadBlock("the block of an absent hash (handle)", hashOnlyBlock{h}, nil)
			}
			if !in(m.TrnHashes) {
				ht, err := hc.TransactionHandleByHash(ih.Sha256(h))
				c.deadTrans("the transaction of an absent hash", ht, err)
				c.deadTrans("the transaction of an absent hash (handle)", hashOnlyTrans{h}, nil)
			}
			if !in(m.AddrHashes) {
				ha, err := hc.AddressHandleByHash(ih.Sha256(h))
				c.deadAddr("the address of an absent hash", ha, err)
				c.deadAddr("the address of an absent hash (handle)", &sAddr{ih.Sha256(h)}, nil)
			}
		}
	}
	for _, d := range []int64{0, 1, 2, 100, 1 << 31, 1 << 40} {
		n := int64(len(m.Blocks)) + d
		hb, err := hc.BlockHandleByHeight(n)
		c.deadBlock(fmt.Sprintf("block %d of %d", n, len(m.Blocks)), hb, err)
		if d == 0 {
			hb, err = c.v.Bc.NextBlock(hb)
			c.deadBlock("the block after the block after the last", hb, err)
		}
		n = int64(len(m.Txs)) + d
		ht, err := hc.TransactionHandleByHeight(n)
		c.deadTrans(fmt.Sprintf("transaction %d of %d", n, len(m.Txs)), ht, err)
		n = int64(len(m.Txis)) + d
		hi, err := hc.TxiHandleByHeight(n)
		if err == nil {
			x, err := c.v.Bc.TxiInterface(hi)
			if err == nil {
				if _, err := x.SourceTxo(); err == nil {
					c.t.Fatalf("beyond-txi", "%s: input %d of %d has a source", c.what, n, len(m.Txis))
				}
			}
		}
		n = int64(len(m.Txos)) + d
		ho, err := hc.TxoHandleByHeight(n)
		if err == nil {
			x, err := c.v.Bc.TxoInterface(ho)
			if err == nil {
				if s, err := x.Satoshis(); err == nil {
					c.t.Fatalf("beyond-txo", "%s: output %d of %d has %d satoshis", c.what, n, len(m.Txos), s)
				}
				if _, err := x.Address(); err == nil {
					c.t.Fatalf("beyond-txo", "%s: output %d of %d has an address", c.what, n, len(m.Txos))
				}
			}
		}
		ha, err := hc.AddressHandleByHeight(int64(len(m.AddrHashes)) + d)
		c.deadAddr(fmt.Sprintf("address %d beyond the %d", int64(len(m.AddrHashes))+d, len(m.AddrHashes)), ha, err)
		c.n += 2
	}
	// before the beginning
	for _, n := range []int64{-2, -100} {
		hb, err := hc.BlockHandleByHeight(n)
		c.deadBlock(fmt.Sprintf("block %d", n), hb, err)
		ht, err := hc.TransactionHandleByHeight(n)
		c.deadTrans(fmt.Sprintf("transaction %d", n), ht, err)
	}
}
