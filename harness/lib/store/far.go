package store

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	cri "github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"verifharness/kit"
	"verifharness/lib/btc"
)

// WordSizes tells from the files of a store that holds a model how many bytes the words of each file have, and what
// kind of thing a file has a word of: 'b'locks, 't'ransactions, 'i'nputs, 'o'utputs or 'a'ddresses.
func WordSizes(dir string, m *Model) (size map[string]int64, kind map[string]byte, err error) {
	size, kind = map[string]int64{}, map[string]byte{}
	last := 0
	for _, o := range m.Txos {
		last = max(last, o.Addr+1)
	}
	counts := map[byte]int{'b': len(m.Blocks), 't': len(m.Txs), 'i': len(m.Txis), 'o': len(m.Txos), 'a': last}
	for folder, k := range map[string]byte{"Blocks": 'b', "Transactions": 't', "TransactionInputs": 'i', "TransactionOutputs": 'o', "Addresses": 'a', "Parents": 0} {
		es, err := os.ReadDir(filepath.Join(dir, folder))
		if err != nil {
			return nil, nil, err
		}
		for _, e := range es {
			if e.IsDir() || filepath.Ext(e.Name()) != ".int" {
				continue
			}
			k := k
			if k == 0 {
				switch {
				case strings.HasSuffix(e.Name(), "oftrans.int"):
					k = 't'
				case strings.HasSuffix(e.Name(), "oftxi.int"):
					k = 'i'
				case strings.HasSuffix(e.Name(), "oftxo.int"):
					k = 'o'
				default:
					return nil, nil, fmt.Errorf("%s is not known", e.Name())
				}
			}
			st, err := os.Stat(filepath.Join(dir, folder, e.Name()))
			if err != nil {
				return nil, nil, err
			}
			n := int64(counts[k])
			if n == 0 || st.Size()%n != 0 || st.Size() == 0 {
				return nil, nil, fmt.Errorf("%s/%s has %d bytes for %d things", folder, e.Name(), st.Size(), n)
			}
			size[filepath.Join(folder, e.Name())], kind[filepath.Join(folder, e.Name())] = st.Size()/n, k
		}
	}
	return size, kind, nil
}

// FarIndex makes an index with n hashes before the ones of a list; a hole in a file stands for those.
func FarIndex(dir string, p *indexedhashes3.HashIndexingParams, n int64, list []btc.Hash) error {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	js, err := json.Marshal(p)
	if err != nil {
		return err
	}
	if err = os.WriteFile(filepath.Join(dir, "HashIndexingParams.json"), js, 0644); err != nil {
		return err
	}
	c := indexedhashes3.NewHashStoreCreatorPrivate(p, dir, false)
	if err = c.CreateHashStore(); err != nil {
		return err
	}
	word := int64(0)
	for x := p.NumberOfBins() - 1; x > 0; x >>= 8 {
		word++
	}
	if err = os.Truncate(filepath.Join(dir, "BinNums.int"), n*word); err != nil {
		return err
	}
	rw, err := c.OpenHashStore()
	if err != nil {
		return err
	}
	for _, h := range list {
		in := ih.Sha256(h)
		if _, err = rw.AppendHash(&in); err != nil {
			rw.Close()
			return err
		}
	}
	return rw.Close()
}

// OnDisk is a creator of a store whose hashes are left on disk.
func OnDisk(dir string, delegated bool, o Opts) (*chainstorage.ConcreteAppendableChainCreator, error) {
	return chainstorage.NewConcreteAppendableChainCreator(dir, o.BlockNeis, o.TransNeis, delegated, false, false)
}

// Far makes a store, not yet appended to, with what base says before the model's blocks: holes in the files stand for that.
// sizes and kinds are from WordSizes.
func Far(dir string, m *Model, base Base, p map[string]*indexedhashes3.HashIndexingParams, delegated bool, size map[string]int64, kind map[string]byte, o Opts) error {
	for name, k := range map[string]struct {
		n    int64
		list []btc.Hash
	}{"Blocks": {base.Blk, m.BlkHashes}, "Transactions": {base.Trn, m.TrnHashes}, "Addresses": {base.Addr, m.AddrHashes}} {
		if err := FarIndex(filepath.Join(dir, name, "Hashes"), p[name], k.n, k.list); err != nil {
			return err
		}
	}
	for _, f := range []string{"TransactionInputs", "TransactionOutputs", "Parents"} {
		if err := os.MkdirAll(filepath.Join(dir, f), 0755); err != nil {
			return err
		}
	}
	acc, err := OnDisk(dir, delegated, o)
	if err != nil {
		return err
	}
	if err = acc.CreateFromHashStores(); err != nil {
		return err
	}
	counts := map[byte]int64{'b': base.Blk, 't': base.Trn, 'i': base.Txi, 'o': base.Txo, 'a': base.Addr}
	for f, s := range size {
		if err = os.Truncate(filepath.Join(dir, f), s*counts[kind[f]]); err != nil {
			return err
		}
	}
	return nil
}

// VerifyFar compares such a store with the model, all but the holes.
func VerifyFar(t *kit.T, what string, m *Model, base Base, v View, o Opts) {
	c := &checker{t: t, what: what, m: m, v: v, r: rand.New(rand.NewSource(t.R.Int63()))}
	defer func() { t.Evals(c.n) }()
	hb, err := v.Bc.LatestBlock()
	c.ok("latest", "LatestBlock", err)
	c.eq("latest-block", "height of the latest block", hb.Height(), base.Blk+int64(len(m.Blocks))-1)
	ht, err := v.Bc.LatestTransaction()
	c.ok("latest", "LatestTransaction", err)
	c.eq("latest-trans", "height of the latest transaction", ht.Height(), base.Trn+int64(len(m.Txs))-1)
	// blocks, along the chain
	hb, err = v.Hc.BlockHandleByHeight(base.Blk)
	c.ok("block", "BlockHandleByHeight", err)
	for h, w := range m.Blocks {
		at := fmt.Sprintf("block %d", base.Blk+int64(h))
		c.eq("next-block", "height of the next block", hb.Height(), base.Blk+int64(h))
		b, err := v.Bc.BlockInterface(hb)
		c.ok("block", at, err)
		hash, err := b.Hash()
		c.ok("block-hash", at+" hash", err)
		c.eq("block-hash", at+" hash", hex(hash), w.Hash.Hex())
		byHash, err := v.Hc.BlockHandleByHash(ih.Sha256(w.Hash))
		c.ok("block-by-hash", at+" by hash", err)
		c.eq("block-by-hash", "height of a block found by hash", byHash.Height(), base.Blk+int64(h))
		n, err := b.TransactionCount()
		c.ok("block-count", at+" transaction count", err)
		c.eq("block-count", at+" transaction count", n, int64(w.NTx))
		for i := int64(0); i < n; i++ {
			ht, err := b.NthTransaction(i)
			c.ok("block-trans", at+" NthTransaction", err)
			c.eq("block-trans", at+" transaction height", ht.Height(), base.Trn+int64(w.FirstTx)+i)
		}
		neis, err := b.NonEssentialInts()
		c.neis(at, neis, err, w.Neis, o.BlockNeis)
		hb, err = v.Bc.NextBlock(hb)
		c.ok("next-block", "NextBlock", err)
	}
	c.eq("next-block", "there is a block after the last", hb.IsInvalid(), true)
	for i, w := range m.Txs {
		pos := base.Trn + int64(i)
		at := fmt.Sprintf("transaction %d", pos)
		byHash, err := v.Hc.TransactionHandleByHash(ih.Sha256(w.Hash))
		c.ok("trans-by-hash", at+" by hash", err)
		c.eq("trans-by-hash", "height of a transaction found by hash", byHash.Height(), base.Trn+int64(w.First))
		ht, err := v.Hc.TransactionHandleByHeight(pos)
		c.ok("trans", at, err)
		x, err := v.Bc.TransInterface(ht)
		c.ok("trans", at, err)
		if w.First == i {
			hash, err := x.Hash()
			c.ok("trans-hash", at+" hash", err)
			c.eq("trans-hash", at+" hash", hex(hash), w.Hash.Hex())
		}
		neis, err := x.NonEssentialInts()
		c.neis(at, neis, err, w.Neis, o.TransNeis)
		n, err := x.TxiCount()
		c.ok("txi-count", at+" input count", err)
		c.eq("txi-count", at+" input count", n, int64(w.NTxi))
		for k := int64(0); k < n; k++ {
			hi, err := x.NthTxi(k)
			c.ok("txi", at+" NthTxi", err)
			in, err := v.Bc.TxiInterface(hi)
			c.ok("txi", at+" TxiInterface", err)
			want := m.Txis[w.FirstTxi+int(k)]
			c.eq("txi-height", at+" input height", in.TxiHeight(), base.Txi+int64(w.FirstTxi)+k)
			src, err := in.SourceTxo()
			c.ok("txi-source", at+" SourceTxo", err)
			c.eq("txi-source", at+" spends transaction", src.ParentTrans().Height(), base.Trn+int64(want.Src))
			c.eq("txi-vout", at+" spends output", src.ParentIndex(), want.Vout)
			spent, err := v.Bc.TxoInterface(src)
			c.ok("txi-source", at+" spent output", err)
			c.eq("txi-spent", at+" spends output at", spent.TxoHeight(), base.Txo+int64(m.Txs[want.Src].FirstTxo)+want.Vout)
		}
		n, err = x.TxoCount()
		c.ok("txo-count", at+" output count", err)
		c.eq("txo-count", at+" output count", n, int64(w.NTxo))
		all, err := x.AllTxoSatoshis()
		c.ok("txo-sats", at+" AllTxoSatoshis", err)
		c.eq("txo-sats", at+" AllTxoSatoshis", len(all), w.NTxo)
		for k := int64(0); k < n; k++ {
			ho, err := x.NthTxo(k)
			c.ok("txo", at+" NthTxo", err)
			out, err := v.Bc.TxoInterface(ho)
			c.ok("txo", at+" TxoInterface", err)
			want := m.Txos[w.FirstTxo+int(k)]
			c.eq("txo-height", at+" output height", out.TxoHeight(), base.Txo+int64(w.FirstTxo)+k)
			sats, err := out.Satoshis()
			c.ok("txo-sats", at+" satoshis", err)
			c.eq("txo-sats", at+" satoshis", sats, want.Sats)
			c.eq("txo-sats", at+" AllTxoSatoshis", all[k], want.Sats)
			ha, err := out.Address()
			c.ok("txo-address", at+" Address", err)
			a, err := v.Bc.AddressInterface(ha)
			c.ok("txo-address", at+" AddressInterface", err)
			c.eq("txo-address", at+" output address", a.Height(), base.Addr+int64(want.Addr))
			c.eq("txo-address", at+" output address hash", hex(a.Hash()), m.AddrHash[want.Addr].Hex())
		}
		p, err := v.Par.ParentBlockOfTrans(pos)
		c.ok("parent", "ParentBlockOfTrans", err)
		c.eq("parent", at+" parent block", p, base.Blk+int64(w.Block))
	}
	for i, w := range m.Txis {
		p, err := v.Par.ParentTransOfTxi(base.Txi + int64(i))
		c.ok("parent", "ParentTransOfTxi", err)
		c.eq("parent", fmt.Sprintf("parent of input %d", base.Txi+int64(i)), p, base.Trn+int64(w.Tx))
	}
	for i, w := range m.Txos {
		p, err := v.Par.ParentTransOfTxo(base.Txo + int64(i))
		c.ok("parent", "ParentTransOfTxo", err)
		c.eq("parent", fmt.Sprintf("parent of output %d", base.Txo+int64(i)), p, base.Trn+int64(w.Tx))
	}
	for h, txos := range m.AddrTxos {
		at := fmt.Sprintf("address %d", base.Addr+int64(h))
		ha, err := v.Hc.AddressHandleByHash(ih.Sha256(m.AddrHash[h]))
		c.ok("address", at+" by hash", err)
		c.eq("address", "height of an address found by hash", ha.Height(), base.Addr+int64(h))
		a, err := v.Bc.AddressInterface(ha)
		c.ok("address", at, err)
		n, err := a.TxoCount()
		c.ok("address-count", at+" output count", err)
		c.eq("address-count", at+" output count", n, int64(len(txos)))
		for k, o := range txos {
			var ho cri.ITxoHandle
			ho, err = a.NthTxo(int64(k))
			c.ok("address-txo", at+" NthTxo", err)
			x, err := v.Bc.TxoInterface(ho)
			c.ok("address-txo", at+" TxoInterface", err)
			c.eq("address-txo", fmt.Sprintf("%s output %d of %d", at, k, len(txos)), x.TxoHeight(), base.Txo+int64(o))
		}
	}
	for _, f := range []struct {
		what string
		n    int64
		got  func() (int64, error)
	}{
		{"value", base.Txo + int64(len(m.Txos)), v.Pf.TxoSatsFile().CountWords}, {"tx", base.Txi + int64(len(m.Txis)), v.Pf.TxiTxFile().CountWords},
		{"vout", base.Txi + int64(len(m.Txis)), v.Pf.TxiVoutFile().CountWords},
		{"firsttxi", base.Trn + int64(len(m.Txs)), v.Pf.TransFirstTxiFile().CountWords}, {"firsttxo", base.Trn + int64(len(m.Txs)), v.Pf.TransFirstTxoFile().CountWords}} {
		n, err := f.got()
		c.ok("file-count", f.what, err)
		c.eq("file-count", f.what+" count", n, f.n)
	}
}
