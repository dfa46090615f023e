package store

import (
	"crypto/sha256"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	"verifharness/kit"
)

// GatherHashes writes the lists of hashes of a source's first n blocks.
func GatherHashes(path string, s *Source, useChi bool, n int) error {
	hcc := chainstorage.NewConcreteHashesChainCreator(path)
	if err := hcc.Create(); err != nil {
		return err
	}
	hc, err := hcc.Open()
	if err != nil {
		return err
	}
	for h := 0; h < n; h++ {
		if useChi {
			err = hc.AppendHashesChi(Chi{s}, Chi{s}.Block(h))
		} else {
			err = hc.AppendHashesCri(Cri{s}, Cri{s}.Block(h), int64(h))
		}
		if err != nil {
			hc.Close()
			return err
		}
	}
	err = hc.Sync() // closing reports nothing
	hc.Close()
	return err
}

// SmallParams is a little index for about n hashes.
func SmallParams(n int) *indexedhashes3.HashIndexingParams {
	bits := int64(8)
	for int64(1)<<uint(bits) < int64(n)+2 {
		bits++
	}
	return indexedhashes3.NewHashStoreParams(bits, int64(n+1), 2, 64, 3, 8)
}

// Index indexes the lists of hashes.
func Index(path string, adaptive bool, threads int, m *Model) error {
	sep := string(os.PathSeparator)
	for _, k := range []struct {
		name string
		n    int
	}{{"Addresses", len(m.AddrHashes)}, {"Transactions", len(m.TrnHashes)}, {"Blocks", len(m.BlkHashes)}} {
		p := SmallParams(k.n)
		if adaptive {
			_, l, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(path, k.name+sep+"Hashes", p, 1)
			if err != nil {
				return err
			}
			if err = l.IndexTheHashes(threads); err != nil {
				return err
			}
			continue
		}
		ba := indexedhashes3.NewBinsArray(p.EntriesInBinStart(), p.BytesPerBinEntry(), 64)
		_, l, err := indexedhashes3.NewHashStoreCreatorAndPreloader(path, k.name+sep+"Hashes", p, 1, ba)
		if err != nil {
			return err
		}
		if err = l.IndexTheHashes(threads); err != nil {
			return err
		}
	}
	return nil
}

// Writer is an open chain being appended to.
type Writer struct {
	Ac  chainstorage.IAppendableChain
	Ind transactionindexing.ITransactionIndexer
	s   *Source
	chi bool
}

// Creator makes the creator of the main part of a store.
func Creator(path string, delegated bool, blk, trn []string) (*chainstorage.ConcreteAppendableChainCreator, error) {
	return chainstorage.NewConcreteAppendableChainCreator(path, blk, trn, delegated, false, true)
}

// Open opens the main part for appending.
func Open(acc *chainstorage.ConcreteAppendableChainCreator, s *Source, useChi, delegated bool) (*Writer, error) {
	w := &Writer{s: s, chi: useChi}
	var err error
	if delegated {
		w.Ac, w.Ind, err = acc.OpenWithIndexer()
	} else {
		w.Ac, err = acc.Open()
	}
	return w, err
}

// Tell gives the indexer what a delegate tells it when a block arrives.
func (w *Writer) Tell(h int) error {
	if w.Ind == nil {
		return nil
	}
	b, o := w.s.M.Blocks[h], w.s.Base
	if err := w.Ind.StoreBlockHeightToFirstTrans(o.Blk+int64(h), o.Trn+int64(b.FirstTx)); err != nil {
		return err
	}
	for i := 0; i < b.NTx; i++ {
		if err := w.Ind.StoreTransHeightToParentBlock(o.Trn+int64(b.FirstTx+i), o.Blk+int64(h)); err != nil {
			return err
		}
	}
	return nil
}

// Append appends block h; Tell must have been called.
func (w *Writer) Append(h int) error {
	if w.chi {
		return w.Ac.AppendBlockChi(Chi{w.s}, Chi{w.s}.Block(h))
	}
	return w.Ac.AppendBlock(Cri{w.s}, Cri{w.s}.Block(h))
}

// Block does both.
func (w *Writer) Block(h int) error {
	if err := w.Tell(h); err != nil {
		return err
	}
	return w.Append(h)
}

// Tree lists the files below a folder with a digest of each.
func Tree(root string) map[string]string {
	res := map[string]string{}
	kit.Must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			return nil
		}
		f, err := os.Open(p)
		if err != nil {
			return err
		}
		defer f.Close()
		h := sha256.New()
		n, err := io.Copy(h, f)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		res[rel] = fmt.Sprintf("%d bytes %x", n, h.Sum(nil)[:8])
		return nil
	}))
	return res
}

// DiffTrees says how two listings differ ("" if they do not), leaving out files skip says to.
func DiffTrees(a, b map[string]string, skip func(string) bool) string {
	names := map[string]bool{}
	for k := range a {
		names[k] = true
	}
	for k := range b {
		names[k] = true
	}
	var ks []string
	for k := range names {
		if skip == nil || !skip(k) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var d []string
	for _, k := range ks {
		if a[k] != b[k] {
			d = append(d, fmt.Sprintf("%s: %q / %q", k, a[k], b[k]))
		}
	}
	if len(d) > 6 {
		d = append(d[:6], fmt.Sprintf("and %d more", len(d)-6))
	}
	return strings.Join(d, "; ")
}

// CopyDir copies a folder as it is on disk.
func CopyDir(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0644)
	})
}
