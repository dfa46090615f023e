package store

import (
	"errors"
	"fmt"
	"math/rand"

	chi "github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	cri "github.com/KitchenMishap/pudding-shed/chainreadinterface"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"verifharness/lib/btc"
)

// Source is a chain to append from. It can be entered anywhere, says where things are
// in the ways it was told to, and can be made to fail.
type Source struct {
	M *Model
	// what handles give
	BlockHeights, TransHeights, TransPaths bool
	SrcHeights, SrcPaths                   bool
	TxxHeights                             bool
	// Base is what comes before the model's blocks in the numbering
	Base Base
	// Fail, if set, is asked at every call
	Fail func(call string) error
	// Calls counts
	Calls map[string]int
}

// Base is a number of blocks, transactions, inputs, outputs and listed addresses before those of a model.
type Base struct{ Blk, Trn, Txi, Txo, Addr int64 }

// RandSource draws the way of saying where things are. A delegated store cannot place
// a transaction by its hash alone.
func RandSource(r *rand.Rand, m *Model, delegated bool) *Source {
	s := &Source{M: m, BlockHeights: r.Intn(2) == 0, TxxHeights: r.Intn(2) == 0, SrcHeights: r.Intn(3) == 0, SrcPaths: r.Intn(3) == 0}
	switch r.Intn(3) {
	case 0:
		s.TransHeights = true
	case 1:
		s.TransPaths = true
	case 2:
		s.TransHeights, s.TransPaths = true, true
	}
	if !delegated && r.Intn(2) == 0 {
		s.TransHeights, s.TransPaths = false, false
	}
	return s
}

func (s *Source) String() string {
	return fmt.Sprintf("source with block heights %v, transaction heights %v paths %v, spent transaction heights %v paths %v, txi/txo heights %v",
		s.BlockHeights, s.TransHeights, s.TransPaths, s.SrcHeights, s.SrcPaths, s.TxxHeights)
}

func (s *Source) call(c string) error {
	if s.Fail != nil {
		return s.Fail(c)
	}
	return nil
}

// ---- chainreadinterface

type sBlock struct {
	s *Source
	h int
}

func (b *sBlock) Height() int64 {
	if !b.s.BlockHeights {
		return -1
	}
	if b.h < 0 {
		return -1
	}
	return b.s.Base.Blk + int64(b.h)
}
func (b *sBlock) Hash() (ih.Sha256, error) {
	if b.h < 0 {
		return ih.Sha256{}, errors.New("invalid block")
	}
	return ih.Sha256(b.s.M.Blocks[b.h].Hash), b.s.call("Block.Hash")
}
func (b *sBlock) HeightSpecified() bool { return b.s.BlockHeights }
func (b *sBlock) HashSpecified() bool   { return true }
func (b *sBlock) IsBlockHandle()        {}
func (b *sBlock) IsInvalid() bool       { return b.h < 0 }
func (b *sBlock) TransactionCount() (int64, error) {
	return int64(b.s.M.Blocks[b.h].NTx), b.s.call("TransactionCount")
}
func (b *sBlock) NthTransaction(n int64) (cri.ITransHandle, error) {
	if err := b.s.call("NthTransaction"); err != nil {
		return nil, err
	}
	return &sTrans{b.s, b.s.M.Blocks[b.h].FirstTx + int(n), b.s.TransHeights, b.s.TransPaths}, nil
}
func (b *sBlock) NonEssentialInts() (*map[string]int64, error) {
	m := map[string]int64{}
	for k, v := range b.s.M.Blocks[b.h].Neis {
		m[k] = v
	}
	return &m, b.s.call("Block.NonEssentialInts")
}

type sTrans struct {
	s            *Source
	i            int
	height, path bool
}

func (t *sTrans) Height() int64 {
	if !t.height {
		return -1
	}
	if t.i < 0 {
		return -1
	}
	return t.s.Base.Trn + int64(t.i)
}
func (t *sTrans) Hash() (ih.Sha256, error) {
	return ih.Sha256(t.s.M.Txs[t.i].Hash), t.s.call("Trans.Hash")
}
func (t *sTrans) IndicesPath() (int64, int64) {
	if !t.path {
		return -1, -1
	}
	b := t.s.M.Txs[t.i].Block
	return t.s.Base.Blk + int64(b), int64(t.i - t.s.M.Blocks[b].FirstTx)
}
func (t *sTrans) HeightSpecified() bool      { return t.height }
func (t *sTrans) HashSpecified() bool        { return true }
func (t *sTrans) IndicesPathSpecified() bool { return t.path }
func (t *sTrans) IsTransHandle()             {}
func (t *sTrans) IsInvalid() bool            { return t.i < 0 }
func (t *sTrans) TxiCount() (int64, error)   { return int64(t.s.M.Txs[t.i].NTxi), t.s.call("TxiCount") }
func (t *sTrans) TxoCount() (int64, error)   { return int64(t.s.M.Txs[t.i].NTxo), t.s.call("TxoCount") }
func (t *sTrans) NthTxi(n int64) (cri.ITxiHandle, error) {
	return &sTxi{t.s, t.i, int(n)}, t.s.call("NthTxi")
}
func (t *sTrans) NthTxo(n int64) (cri.ITxoHandle, error) {
	return &sTxo{t.s, t.i, int(n)}, t.s.call("NthTxo")
}
func (t *sTrans) AllTxoSatoshis() ([]int64, error) {
	var r []int64
	x := t.s.M.Txs[t.i]
	for i := 0; i < x.NTxo; i++ {
		r = append(r, t.s.M.Txos[x.FirstTxo+i].Sats)
	}
	return r, nil
}
func (t *sTrans) NonEssentialInts() (*map[string]int64, error) {
	m := map[string]int64{}
	for k, v := range t.s.M.Txs[t.i].Neis {
		m[k] = v
	}
	return &m, t.s.call("Trans.NonEssentialInts")
}

type sTxi struct {
	s    *Source
	t, n int
}

func (x *sTxi) ParentTrans() cri.ITransHandle {
	return &sTrans{x.s, x.t, x.s.TransHeights, x.s.TransPaths}
}
func (x *sTxi) ParentIndex() int64 { return int64(x.n) }
func (x *sTxi) TxiHeight() int64 {
	if !x.s.TxxHeights {
		return -1
	}
	return x.s.Base.Txi + int64(x.s.M.Txs[x.t].FirstTxi+x.n)
}
func (x *sTxi) IndicesPath() (int64, int64, int64) { return -1, -1, -1 }
func (x *sTxi) ParentSpecified() bool              { return true }
func (x *sTxi) TxiHeightSpecified() bool           { return x.s.TxxHeights }
func (x *sTxi) IndicesPathSpecified() bool         { return false }
func (x *sTxi) SourceTxo() (cri.ITxoHandle, error) {
	if err := x.s.call("SourceTxo"); err != nil {
		return nil, err
	}
	m := x.s.M.Txis[x.s.M.Txs[x.t].FirstTxi+x.n]
	return &srcTxo{sTxo{x.s, m.Src, int(m.Vout)}}, nil
}

type sTxo struct {
	s    *Source
	t, n int
}

func (x *sTxo) ParentTrans() cri.ITransHandle {
	return &sTrans{x.s, x.t, x.s.TransHeights, x.s.TransPaths}
}
func (x *sTxo) ParentIndex() int64 { return int64(x.n) }
func (x *sTxo) TxoHeight() int64 {
	if !x.s.TxxHeights {
		return -1
	}
	return x.s.Base.Txo + int64(x.s.M.Txs[x.t].FirstTxo+x.n)
}
func (x *sTxo) IndicesPath() (int64, int64, int64) { return -1, -1, -1 }
func (x *sTxo) ParentSpecified() bool              { return true }
func (x *sTxo) TxoHeightSpecified() bool           { return x.s.TxxHeights }
func (x *sTxo) IndicesPathSpecified() bool         { return false }
func (x *sTxo) txo() Txo                           { return x.s.M.Txos[x.s.M.Txs[x.t].FirstTxo+x.n] }
func (x *sTxo) Satoshis() (int64, error)           { return x.txo().Sats, x.s.call("Satoshis") }
func (x *sTxo) Address() (cri.IAddressHandle, error) {
	return &sAddr{ih.Sha256(x.s.M.AddrHash[x.txo().Addr])}, x.s.call("Address")
}

// srcTxo is the output an input spends.
type srcTxo struct{ sTxo }

func (x *srcTxo) ParentTrans() cri.ITransHandle {
	return &sTrans{x.s, x.t, x.s.SrcHeights, x.s.SrcPaths}
}

type sAddr struct{ h ih.Sha256 }

func (a *sAddr) Height() int64                        { return -1 }
func (a *sAddr) Hash() ih.Sha256                      { return a.h }
func (a *sAddr) HeightSpecified() bool                { return false }
func (a *sAddr) HashSpecified() bool                  { return true }
func (a *sAddr) TxoCount() (int64, error)             { return -1, errors.New("not supported") }
func (a *sAddr) NthTxo(int64) (cri.ITxoHandle, error) { return nil, errors.New("not supported") }

// Cri presents the source by chainreadinterface.
type Cri struct{ *Source }

var _ cri.IBlockChain = Cri{}

func (s Cri) InvalidBlock() cri.IBlockHandle { return &sBlock{s.Source, -1} }
func (s Cri) InvalidTrans() cri.ITransHandle { return &sTrans{s.Source, -1, true, false} }
func (s Cri) GenesisBlock() cri.IBlockHandle { return s.Block(0) }
func (s Cri) Block(h int) cri.IBlockHandle   { return &sBlock{s.Source, h} }
func (s Cri) ParentBlock(b cri.IBlockHandle) cri.IBlockHandle {
	return &sBlock{s.Source, b.(*sBlock).h - 1}
}
func (s Cri) GenesisTransaction() (cri.ITransHandle, error) {
	return &sTrans{s.Source, 0, s.TransHeights, s.TransPaths}, nil
}
func (s Cri) PreviousTransaction(t cri.ITransHandle) cri.ITransHandle {
	return &sTrans{s.Source, t.(*sTrans).i - 1, s.TransHeights, s.TransPaths}
}
func (s Cri) IsBlockTree() bool { return false }
func (s Cri) BlockInterface(b cri.IBlockHandle) (cri.IBlock, error) {
	return b.(*sBlock), s.call("BlockInterface")
}
func (s Cri) TransInterface(t cri.ITransHandle) (cri.ITransaction, error) {
	return t.(*sTrans), s.call("TransInterface")
}
func (s Cri) TxiInterface(t cri.ITxiHandle) (cri.ITxi, error) {
	return t.(*sTxi), s.call("TxiInterface")
}
func (s Cri) TxoInterface(t cri.ITxoHandle) (cri.ITxo, error) {
	return t.(*sTxo), s.call("TxoInterface")
}
func (s Cri) AddressInterface(a cri.IAddressHandle) (cri.IAddress, error) {
	return a.(*sAddr), s.call("AddressInterface")
}
func (s Cri) LatestBlock() (cri.IBlockHandle, error) {
	return &sBlock{s.Source, len(s.M.Blocks) - 1}, nil
}
func (s Cri) NextBlock(b cri.IBlockHandle) (cri.IBlockHandle, error) {
	h := b.(*sBlock).h + 1
	if h >= len(s.M.Blocks) {
		h = -1
	}
	return &sBlock{s.Source, h}, nil
}
func (s Cri) LatestTransaction() (cri.ITransHandle, error) {
	return &sTrans{s.Source, len(s.M.Txs) - 1, s.TransHeights, s.TransPaths}, nil
}
func (s Cri) NextTransaction(t cri.ITransHandle) (cri.ITransHandle, error) {
	i := t.(*sTrans).i + 1
	if i >= len(s.M.Txs) {
		i = -1
	}
	return &sTrans{s.Source, i, s.TransHeights, s.TransPaths}, nil
}

// ---- chainhandleinterface

// Chi presents the source by chainhandleinterface.
type Chi struct{ *Source }

var _ chi.IBlockChain = Chi{}

func put(v int) (b [4]byte) {
	b[0], b[1], b[2], b[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	return
}
func get(b [4]byte) int { return int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3]) }

// Block gives the handle of a block. (Handles are opaque: these ones are big endian, plus one.)
func (s Chi) Block(h int) chi.BlockHandle { return chi.BlockHandle{Bytes: put(h + 1)} }

func (s Chi) IsBlockHandleInvalid(b chi.BlockHandle) bool { return get(b.Bytes) == 0 }
func (s Chi) GenesisBlock() (chi.BlockHandle, error)      { return s.Block(0), nil }
func (s Chi) NextBlock(b chi.BlockHandle) (chi.BlockHandle, error) {
	h := get(b.Bytes)
	if h >= len(s.M.Blocks) {
		h = -1
	}
	return s.Block(h), nil
}
func (s Chi) GetBlockInfo(b chi.BlockHandle, r chi.IBlockReceiver) error {
	if err := s.call("GetBlockInfo"); err != nil {
		return err
	}
	h := get(b.Bytes) - 1
	m := s.M.Blocks[h]
	r.ResetReceiver()
	r.ReceiveBlockHeight(s.Base.Blk + int64(h))
	r.ReceiveBlockHash(m.Hash)
	for k, v := range m.Neis {
		r.ReceiveIntField(k, v)
	}
	for i := 0; i < m.NTx; i++ {
		r.ReceiveTransactionHandleToAppend(chi.TransactionHandle{BH: b, TSH: chi.TransactionSubHandle{Bytes: put(i)}})
	}
	return nil
}
func (s Chi) tx(t chi.TransactionHandle) int {
	return s.M.Blocks[get(t.BH.Bytes)-1].FirstTx + get(t.TSH.Bytes)
}
func (s Chi) GetTransactionInfo(t chi.TransactionHandle, r chi.IBitcoinCoreTransactionReceiver) error {
	if err := s.call("GetTransactionInfo"); err != nil {
		return err
	}
	m := s.M.Txs[s.tx(t)]
	r.ResetReceiver()
	r.ReceiveParentBlockHandle(t.BH)
	r.ReceiveTransactionHash(m.Hash)
	for k, v := range m.Neis {
		r.ReceiveIntField(k, v)
	}
	n := m.NTxi
	if get(t.TSH.Bytes) == 0 {
		n = 1 // these are transactions as Core has them: the coinbase has an input
	}
	for i := 0; i < n; i++ {
		r.ReceiveTxiHandleToAppend(chi.TxiHandle{TH: t, TXISH: chi.TxiSubHandle{Bytes: put(i)}})
	}
	for i := 0; i < m.NTxo; i++ {
		r.ReceiveTxoHandleToAppend(chi.TxoHandle{TH: t, TXOSH: chi.TxoSubHandle{Bytes: put(i)}})
	}
	return nil
}
func (s Chi) GetTxiInfo(x chi.TxiHandle, r chi.ITxiReceiver) error {
	if err := s.call("GetTxiInfo"); err != nil {
		return err
	}
	r.ReceiveParentTransactionHandle(x.TH)
	if get(x.TH.TSH.Bytes) == 0 {
		r.ReceiveIncomingTxid([32]byte{})
		r.ReceiveIncomingVout(0xffffffff)
		return nil
	}
	m := s.M.Txis[s.M.Txs[s.tx(x.TH)].FirstTxi+get(x.TXISH.Bytes)]
	r.ReceiveIncomingTxid(m.SrcHash)
	r.ReceiveIncomingVout(m.Vout)
	return nil
}
func (s Chi) GetTxoInfo(x chi.TxoHandle, r chi.ITxoReceiver) error {
	if err := s.call("GetTxoInfo"); err != nil {
		return err
	}
	m := s.M.Txos[s.M.Txs[s.tx(x.TH)].FirstTxo+get(x.TXOSH.Bytes)]
	r.ResetReceiver()
	r.ReceiveParentTransactionHandle(x.TH)
	r.ReceiveSatoshisValue(m.Sats)
	for _, b := range m.Script {
		r.ReceiveScriptPubByteToAppend(b)
	}
	return nil
}

var _ = btc.Hash{}
