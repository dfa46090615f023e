// C02: the stored bytes do not depend on threads, formats or timing.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/jobs"
	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/node"
	"verifharness/lib/store"
)

var (
	blockNeis = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}
	transNeis = []string{"size", "vsize", "weight"}
)

type variant struct {
	JSON, Handles, Adaptive bool
	Threads                 int
	Jitter                  time.Duration
	Slow                    int // this block is late by a lot
}

func (v variant) String() string {
	return fmt.Sprintf("json %v, handles %v, adaptive %v, %d threads, answers up to %v late, block %d later", v.JSON, v.Handles, v.Adaptive, v.Threads, v.Jitter, v.Slow)
}

// gather runs the three phases and returns the listing of the folder after each.
func gather(t *kit.T, dir string, chain []*btc.Block, m *store.Model, limit int64, v variant) []map[string]string {
	n := node.New(chain, kit.NewRand(t.R.Int63(), "node"))
	n.Jitter = v.Jitter
	if v.Slow >= 0 {
		n.BlockFault = func(h, attempt int) node.Fault {
			if h == v.Slow {
				return node.Slow
			}
			return node.None
		}
	}
	n.Start()
	defer n.Stop()
	var trees []map[string]string
	one, three := jobs.PhaseOneParallelIntrinsic, jobs.PhaseThreeParallelIntrinsic
	if v.Handles {
		one, three = jobs.PhaseOneParallelIntrinsicChi, jobs.PhaseThreeParallelIntrinsicChi
	}
	if err := one(dir, v.JSON, int64(len(chain)), int64(len(m.Txs)), v.Threads, "\n"); err != nil {
		t.Fatalf("phase-one", "%v: phase one: %v", v, err)
	}
	trees = append(trees, store.Tree(dir))
	if err := store.Index(dir, v.Adaptive, v.Threads, m); err != nil {
		t.Fatalf("indexing", "%v: indexing: %v", v, err)
	}
	trees = append(trees, store.Tree(dir))
	acc, err := chainstorage.NewConcreteAppendableChainCreator(dir, blockNeis, transNeis, true, false, t.R.Intn(2) == 0)
	t.NoErr(err, "creator")
	t.NoErr(acc.CreateFromHashStores(), "CreateFromHashStores")
	ac, ind, err := acc.OpenWithIndexer()
	t.NoErr(err, "OpenWithIndexer")
	if err := three(limit, v.JSON, int64(len(m.Txs)), ac, ind, v.Threads, "\n"); err != nil {
		t.Fatalf("phase-three", "%v: phase three: %v", v, err)
	}
	trees = append(trees, store.Tree(dir))
	t.CountMax("blocks_fetched_at_a_time", int64(n.MaxInflight))
	return trees
}

// index says that a file belongs to the index of hashes, whose layout is the indexer's.
func index(p string) bool {
	return strings.Contains(filepath.ToSlash(p), "/Hashes/")
}

// answers compares what two stores answer for hashes, without a model of what that should be.
func answers(t *kit.T, what string, m *store.Model, a, b store.View) {
	all := map[btc.Hash]bool{}
	for _, l := range [][]btc.Hash{m.BlkHashes, m.TrnHashes, m.AddrHashes} {
		for _, h := range l {
			all[h] = true
		}
	}
	var hs []btc.Hash
	for h := range all {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return string(hs[i][:]) < string(hs[j][:]) })
	for i := len(hs) - 1; i >= 0 && i > len(hs)-100; i-- {
		h := hs[i]
		h[t.R.Intn(32)] ^= 1 << uint(t.R.Intn(8))
		hs = append(hs, h, btc.RandHash(t.R))
	}
	show := func(v store.View, h ih.Sha256) string {
		hb, e1 := v.Hc.BlockHandleByHash(h)
		ht, e2 := v.Hc.TransactionHandleByHash(h)
		ha, e3 := v.Hc.AddressHandleByHash(h)
		s := ""
		if e1 == nil {
			s += fmt.Sprint(" block ", hb.Height())
		}
		if e2 == nil {
			s += fmt.Sprint(" transaction ", ht.Height())
		}
		if e3 == nil {
			s += fmt.Sprint(" address ", ha.Height())
		}
		return s
	}
	for _, h := range hs {
		x, y := show(a, ih.Sha256(h)), show(b, ih.Sha256(h))
		t.Evals(1)
		if x != y {
			t.Fatalf("index-answers", "%s: the hash %s is%s in one and%s in the other", what, h.Hex(), x, y)
		}
	}
}

func compare(k, blocks, variants int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("bytes/%02d", k), Timeout: 10 * time.Minute, Run: func(t *kit.T) {
		nb := 2 + t.R.Intn(blocks)
		if k%5 == 4 {
			nb = 150 + t.R.Intn(blocks)
		}
		co := btc.RandChainOpts(t.R, nb)
		if k%12 == 1 { // more inputs and outputs of a transaction than 16 bits count
			co.Blocks, co.Dups, co.Big, co.Giant = 7, false, false, 2
		}
		chain := btc.Chain(t.R, co)
		m := store.NewModel(chain, len(chain))
		limit := int64(len(chain))
		if t.R.Intn(3) == 0 {
			limit = 1 + t.R.Int63n(limit)
		}
		type done struct {
			v     variant
			dir   string
			trees []map[string]string
		}
		var ds []done
		names := []string{"the hash phase", "indexing", "the main phase"}
		for i := 0; i < variants; i++ {
			v := variant{Slow: -1, Threads: 1}
			if i > 0 {
				v.JSON, v.Handles, v.Adaptive = t.R.Intn(2) == 0, t.R.Intn(2) == 0, t.R.Intn(2) == 0
				v.Threads = []int{1, 2, 3, 4, 8, 16, 32}[t.R.Intn(7)]
				v.Jitter = []time.Duration{0, time.Millisecond, 4 * time.Millisecond}[t.R.Intn(3)]
				if t.R.Intn(3) == 0 {
					v.Slow = t.R.Intn(len(chain))
				}
			}
			if i == 1 {
				v.Adaptive = true
			}
			d := done{v: v, dir: t.SubDir(fmt.Sprintf("v%d", i))}
			d.trees = gather(t, d.dir, chain, m, limit, v)
			what := ""
			for j, e := range ds {
				if j > 1 { // all are compared with the first of each kind of indexing
					break
				}
				what = fmt.Sprintf("%d of %d blocks, %d transactions: [%v] and [%v]", limit, len(chain), len(m.Txs), e.v, v)
				for p := range names {
					skip := index
					if e.v.Adaptive == v.Adaptive {
						skip = nil
					}
					t.Evals(int64(len(d.trees[p])))
					if x := store.DiffTrees(e.trees[p], d.trees[p], skip); x != "" {
						t.Fatalf("bytes", "%s: after %s the files differ: %s", what, names[p], x)
					}
				}
			}
			ds = append(ds, d)
			if i == 1 {
				a, err := store.OpenReadOnly(ds[0].dir, true, false, t.R.Intn(2) == 0)
				t.NoErr(err, "open")
				b, err := store.OpenReadOnly(ds[1].dir, true, false, t.R.Intn(2) == 0)
				t.NoErr(err, "open")
				answers(t, what, m, a, b)
				t.Count("indexes_compared", 1)
			} else if i > 1 {
				kit.Must(os.RemoveAll(d.dir))
			}
			t.Count("gatherings", 1)
			t.Distinct(v, limit, len(m.Txs))
		}
		t.Count("files_compared", int64(len(ds[0].trees[2])*variants))
		t.Sample("%d blocks, %d transactions, %d files, %d gatherings", len(chain), len(m.Txs), len(ds[0].trees[2]), variants)
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:    "C02",
		Level: "exploration",
		Rule: "each random chain is gathered several times by the real job from a look-alike node that answers in random order (with late blocks), varying transfer format, interface, thread count, delays and indexing; " +
			"the digests of all files after each phase are compared (index files between gatherings with the same kind of indexing; the two kinds by their answers for every stored hash and near misses). Distinct: variants",
		Assumptions: []string{"difficulties about halfway between integers are left out, where the node's JSON decimal is itself rounded"},
		Cases: func(tier string, seed int64) []kit.Case {
			n, blocks, variants := 40, 40, 8
			if tier == "thorough" {
				n, blocks, variants = 96, 250, 20
			}
			var cs []kit.Case
			for k := 0; k < n; k++ {
				cs = append(cs, compare(k, blocks, variants))
			}
			return cs
		},
		MinEvals: 3000,
	})
}
