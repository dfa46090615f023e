// C01: a gathered chain reads back exactly as the node served it.
package main

import (
	"fmt"
	"os"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/jobs"
	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/node"
	"verifharness/lib/store"
)

// The statistics the documented run stores.
var (
	blockNeis = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}
	transNeis = []string{"size", "vsize", "weight"}
)

type options struct {
	JSON, Handles, Adaptive bool
	Threads                 int
	Limit                   int64
}

func (o options) String() string {
	return fmt.Sprintf("json %v, handles %v, adaptive %v, %d threads, limit %d", o.JSON, o.Handles, o.Adaptive, o.Threads, o.Limit)
}

func draw(t *kit.T, blocks int) options {
	o := options{JSON: t.R.Intn(2) == 0, Handles: t.R.Intn(2) == 0, Adaptive: t.R.Intn(2) == 0, Threads: []int{1, 2, 3, 4, 8, 13, 32}[t.R.Intn(7)]}
	switch t.R.Intn(6) {
	case 0:
		o.Limit = 1
	case 1, 2:
		o.Limit = 1 + int64(t.R.Intn(blocks))
	case 3:
		o.Limit = int64(blocks)
	case 4:
		o.Limit = int64(blocks) + 1 + int64(t.R.Intn(5))
	}
	return o
}

// serve starts a node that is in no hurry, and now and then fails a little.
func serve(t *kit.T, chain []*btc.Block) *node.Node {
	n := node.New(chain, kit.NewRand(t.R.Int63(), "node"))
	n.Jitter = []time.Duration{0, time.Millisecond, 5 * time.Millisecond}[t.R.Intn(3)]
	if t.R.Intn(2) == 0 {
		bad := map[int]node.Fault{}
		for i := 0; i < 3; i++ {
			bad[t.R.Intn(len(chain))] = node.Failing[t.R.Intn(len(node.Failing))]
		}
		dribble := t.R.Intn(len(chain))
		n.BlockFault = func(h, attempt int) node.Fault {
			if f, ok := bad[h]; ok && attempt%3 < 2 {
				return f
			}
			if h == dribble {
				return node.Dribble
			}
			return node.None
		}
	}
	n.Start()
	return n
}

func ok(t *kit.T, what string, err error) {
	if err != nil {
		t.Fatalf("failed", "%s: %v", what, err)
	}
}

func limited(m *store.Model, limit int64) *store.Model {
	if limit == 0 || limit >= int64(len(m.Blocks)) {
		return m
	}
	return store.NewModel(m.Chain, int(limit))
}

func check(t *kit.T, what, dir string, m *store.Model, ram bool) {
	store.VerifyAll(t, what, dir, m, store.Opts{BlockNeis: blockNeis, TransNeis: transNeis, Absent: 10}, true, ram)
}

// whole runs everything as the program does, with the parameters for the first two years.
func whole(k int, blocks int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("run/%02d", k), Timeout: 10 * time.Minute, Run: func(t *kit.T) {
		chain := btc.Chain(t.R, btc.RandChainOpts(t.R, 1+t.R.Intn(blocks)))
		m := store.NewModel(chain, len(chain))
		n := serve(t, chain)
		defer n.Stop()
		dir := t.SubDir("chain")
		o := draw(t, len(chain))
		o.JSON, o.Handles, o.Adaptive = k&1 != 0, k&2 != 0, k&4 != 0
		what := fmt.Sprintf("%d blocks, %d transactions, %v", len(chain), len(m.Txs), o)
		t.Sample("%s", what)
		if t.R.Intn(2) == 0 {
			ok(t, "RunIntrinsic "+what, jobs.RunIntrinsic(dir, o.JSON, "delegated", 2, o.Threads, 1, true, true, true, o.Limit, true, o.Handles, o.Adaptive))
		} else {
			// one phase at a time, as after an interruption, and with other options for each
			what += ", a phase at a time"
			for i := 0; i < 3; i++ {
				ok(t, fmt.Sprintf("RunIntrinsic phase %d of %s", i+1, what), jobs.RunIntrinsic(dir, o.JSON, "delegated", 2, o.Threads, 1, i == 0, i == 1, i == 2, o.Limit, true, o.Handles, o.Adaptive))
				if t.R.Intn(3) == 0 && i < 2 {
					o2 := draw(t, len(chain))
					o.JSON, o.Handles, o.Threads = o2.JSON, o2.Handles, o2.Threads
					what += fmt.Sprintf(", then %v", o)
				}
			}
		}
		check(t, what, dir, limited(m, o.Limit), true)
		t.Distinct("run", o, len(m.Txs))
		t.Count("whole_runs", 1)
		// the main phase again, into the same folder, is refused and changes nothing
		if t.R.Intn(2) == 0 {
			before := store.Tree(dir)
			p := draw(t, len(chain))
			err := jobs.RunIntrinsic(dir, p.JSON, "delegated", 2, p.Threads, 1, false, false, true, p.Limit, true, p.Handles, p.Adaptive)
			if err == nil { // if it is done, it must be done well
				check(t, what+fmt.Sprintf("; main phase again, %v", p), dir, limited(m, p.Limit), false)
			} else if d := store.DiffTrees(before, store.Tree(dir), nil); d != "" {
				t.Fatalf("refused-but-changed", "%s; main phase again, %v, is refused (%v) but changed the store: %s", what, p, err, d)
			}
			t.Count("main_phase_again", 1)
			t.Distinct("again", o, p)
		}
		// and everything again, with another chain in the same folder
		if t.R.Intn(2) == 0 {
			n.Stop()
			chain = btc.Chain(t.R, btc.RandChainOpts(t.R, 1+t.R.Intn(blocks)))
			m = store.NewModel(chain, len(chain))
			n2 := serve(t, chain)
			defer n2.Stop()
			p := draw(t, len(chain))
			what = fmt.Sprintf("%d blocks, %d transactions, %v, after another chain in the same folder", len(chain), len(m.Txs), p)
			ok(t, "RunIntrinsic "+what, jobs.RunIntrinsic(dir, p.JSON, "delegated", 2, p.Threads, 1, true, true, true, p.Limit, true, p.Handles, p.Adaptive))
			check(t, what, dir, limited(m, p.Limit), false)
			t.Count("other_chain_again", 1)
		}
	}}
}

// phases runs the phases with little indexes and limits of its own.
func phases(k int, blocks, runs int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("phases/%02d", k), Timeout: 10 * time.Minute, Run: func(t *kit.T) {
		for run := 0; run < runs; run++ {
			nb := 1 + t.R.Intn(blocks)
			if t.R.Intn(4) == 0 {
				nb = 200 + t.R.Intn(blocks) // more than the sequencers hold
			}
			co := btc.RandChainOpts(t.R, nb)
			if k%24 == 0 && run == 0 { // more than one answer with headers
				co.Blocks, co.MaxTxs, co.Wide, co.Big = 2000+t.R.Intn(2300), 2, false, false
			}
			if k%12 == 1 && run == 0 { // more inputs and outputs of a transaction than 16 bits count
				co.Blocks, co.Dups, co.Big, co.Giant = 7, false, false, 2
			}
			chain := btc.Chain(t.R, co)
			n := serve(t, chain)
			dir := t.SubDir(fmt.Sprintf("c%d", run))
			o := draw(t, len(chain))
			if co.Giant > 0 {
				o.Limit, o.Handles = 0, k/12%2 == 0 // both interfaces in turn
			}
			hashes := int64(len(chain)) + 5
			if o.Limit > 0 && t.R.Intn(2) == 0 {
				hashes = o.Limit // the hashes of those blocks only
			}
			m := store.NewModel(chain, int(min(hashes, int64(len(chain)))))
			what := fmt.Sprintf("%d blocks, hashes of %d, %d transactions, %v", len(chain), len(m.Blocks), len(m.Txs), o)
			t.Sample("%s", what)
			one, three := jobs.PhaseOneParallelIntrinsic, jobs.PhaseThreeParallelIntrinsic
			if o.Handles {
				one, three = jobs.PhaseOneParallelIntrinsicChi, jobs.PhaseThreeParallelIntrinsicChi
			}
			ok(t, "phase one of "+what, one(dir, o.JSON, hashes, int64(len(m.Txs)), o.Threads, "\n"))
			ok(t, "indexing of "+what, store.Index(dir, o.Adaptive, o.Threads, m))
			acc, err := chainstorage.NewConcreteAppendableChainCreator(dir, blockNeis, transNeis, true, false, t.R.Intn(2) == 0)
			t.NoErr(err, "creator")
			t.NoErr(acc.CreateFromHashStores(), "CreateFromHashStores")
			ac, ind, err := acc.OpenWithIndexer()
			t.NoErr(err, "OpenWithIndexer")
			limit := hashes
			if o.Limit > 0 && o.Limit < limit {
				limit = o.Limit
			}
			ok(t, "phase three of "+what, three(limit, o.JSON, int64(len(m.Txs)), ac, ind, o.Threads, "\n"))
			n.Stop()
			check(t, what, dir, limited(m, limit), t.R.Intn(4) == 0)
			t.Distinct("phases", o, len(m.Txs))
			t.Count("phase_runs", 1)
			t.CountMax("blocks_of_a_chain", int64(len(chain)))
			t.CountMax("blocks_fetched_at_a_time", int64(n.MaxInflight))
			kit.Must(os.RemoveAll(dir))
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:    "C01",
		Level: "exploration",
		Rule: "the real job (all phases, one at a time, repeated into the same folder, or with little indexes) gathers random chains from a Bitcoin Core look-alike on loopback that answers in random order and now and then fails; " +
			"every documented option is varied; the finished folder is opened read-only (files, hashes in memory, all in memory) and every object and statistic compared with the served chain, by every route. Distinct: options and chain size",
		Assumptions: []string{"the node serves a valid chain whose inputs spend outputs of that chain", "difficulties about halfway between integers are left out for chains fetched as JSON, where the node's decimal is itself rounded"},
		Cases: func(tier string, seed int64) []kit.Case {
			w, p, runs, blocks := 8, 24, 3, 60
			if tier == "thorough" {
				w, p, runs, blocks = 48, 96, 12, 300
			}
			var cs []kit.Case
			for k := 0; k < w; k++ {
				cs = append(cs, whole(k, blocks))
			}
			for k := 0; k < p; k++ {
				cs = append(cs, phases(k, blocks, runs))
			}
			return cs
		},
		MinEvals: 10000,
	})
}
