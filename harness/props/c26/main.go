// C26: gathering and indexing run without data races or leaks. Built with the race
// detector: a race it reports ends the worker, which the parent records as a violation.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/jobs"
	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/node"
	"verifharness/lib/store"
)

var (
	blockNeis = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}
	transNeis = []string{"size", "vsize", "weight"}
	// code that writes the store
	storePkgs = []string{"pudding-shed/chainstorage.", "pudding-shed/wordfile.", "pudding-shed/memfile.", "pudding-shed/intarrayarray.", "pudding-shed/indexedhashes", "pudding-shed/memshadowed.", "pudding-shed/memblocker."}
	anyPkg    = []string{"KitchenMishap/pudding-shed/"}
)

// running lists the goroutines inside code of those packages.
func running(pkgs []string) []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var r []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "main.running(") {
			continue // this one
		}
		if i := strings.Index(g, "\ncreated by "); i >= 0 {
			g = g[:i] // where it runs, not who made it
		}
		for _, p := range pkgs {
			if strings.Contains(g, p) {
				r = append(r, g)
				break
			}
		}
	}
	return r
}

// settle waits until none is left and returns those that are after all.
func settle(pkgs []string) []string {
	var left []string
	for i := 0; i < 400; i++ {
		if left = running(pkgs); len(left) == 0 {
			return nil
		}
		time.Sleep(time.Duration(i) * time.Millisecond / 2)
	}
	return left
}

// quiet checks that nothing is still running in those packages, and that the files stay as they are.
func quiet(t *kit.T, what string, pkgs []string, dirs ...string) {
	t.Evals(1)
	if left := settle(pkgs); len(left) > 0 {
		t.Fatalf("left-running", "%s: %d goroutines are left, such as:\n%s", what, len(left), left[0])
	}
	for _, d := range dirs {
		before := store.Tree(d)
		runtime.Gosched()
		time.Sleep(3 * time.Millisecond)
		t.Evals(int64(len(before)))
		if x := store.DiffTrees(before, store.Tree(d), nil); x != "" {
			t.Fatalf("still-writing", "%s: the files still change: %s", what, x)
		}
	}
	t.Count("times_nothing_was_left_running", 1)
}

type opts struct {
	JSON, Handles, Adaptive bool
	Threads                 int
}

func (o opts) String() string {
	return fmt.Sprintf("json %v, handles %v, adaptive %v, %d threads", o.JSON, o.Handles, o.Adaptive, o.Threads)
}

func draw(r *rand.Rand, k int) opts {
	return opts{k&1 != 0, k&2 != 0, k&4 != 0, []int{1, 2, 3, 4, 8, 16, 32}[r.Intn(7)]}
}

func one(o opts) func(string, bool, int64, int64, int, string) error {
	if o.Handles {
		return jobs.PhaseOneParallelIntrinsicChi
	}
	return jobs.PhaseOneParallelIntrinsic
}

func three(dir string, o opts, m *store.Model, limit int64) error {
	acc, err := chainstorage.NewConcreteAppendableChainCreator(dir, blockNeis, transNeis, true, false, true)
	if err != nil {
		return err
	}
	if err = acc.CreateFromHashStores(); err != nil {
		return err
	}
	ac, ind, err := acc.OpenWithIndexer()
	if err != nil {
		return err
	}
	f := jobs.PhaseThreeParallelIntrinsic
	if o.Handles {
		f = jobs.PhaseThreeParallelIntrinsicChi
	}
	return f(limit, o.JSON, int64(len(m.Txs)), ac, ind, o.Threads, "\n")
}

// gather runs the three phases.
func gather(dir string, o opts, m *store.Model, limit int64) error {
	if err := one(o)(dir, o.JSON, int64(len(m.Blocks)), int64(len(m.Txs)), o.Threads, "\n"); err != nil {
		return fmt.Errorf("phase one: %w", err)
	}
	if err := store.Index(dir, o.Adaptive, o.Threads, m); err != nil {
		return fmt.Errorf("indexing: %w", err)
	}
	if err := three(dir, o, m, limit); err != nil {
		return fmt.Errorf("phase three: %w", err)
	}
	return nil
}

func serve(t *kit.T, chain []*btc.Block, retries bool) *node.Node {
	n := node.New(chain, kit.NewRand(t.R.Int63(), "node"))
	n.Jitter = []time.Duration{0, 500 * time.Microsecond, 3 * time.Millisecond}[t.R.Intn(3)]
	if retries && t.R.Intn(2) == 0 {
		bad := map[int]node.Fault{}
		for i := 0; i < 3; i++ {
			bad[t.R.Intn(len(chain))] = node.Failing[t.R.Intn(len(node.Failing))]
		}
		n.BlockFault = func(h, attempt int) node.Fault {
			if f, ok := bad[h]; ok && attempt%3 < 2 {
				return f
			}
			return node.None
		}
	}
	n.Start()
	return n
}

var verify = store.Opts{BlockNeis: blockNeis, TransNeis: transNeis, Absent: 3, Addrs: 10}

// pipeline: whole gatherings, one or several at a time.
func pipeline(k, runs, blocks int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("pipeline/%02d", k), Timeout: 10 * time.Minute, Run: func(t *kit.T) {
		for run := 0; run < runs; run++ {
			nb := 1 + t.R.Intn(blocks)
			if t.R.Intn(4) == 0 {
				nb = 110 + t.R.Intn(blocks)
			}
			chain := btc.Chain(t.R, btc.RandChainOpts(t.R, nb))
			m := store.NewModel(chain, len(chain))
			n := serve(t, chain, run%3 != 2) // (several at a time would share the tries)
			limit := int64(len(chain))
			if t.R.Intn(3) == 0 {
				limit = 1 + t.R.Int63n(limit)
			}
			at := 1
			if run%3 == 2 {
				at = 2 + t.R.Intn(2)
			}
			var os_ []opts
			var dirs []string
			errs := make([]error, at)
			for i := 0; i < at; i++ {
				os_ = append(os_, draw(t.R, k+i*3+run))
				dirs = append(dirs, t.SubDir(fmt.Sprintf("r%d-%d", run, i)))
			}
			what := fmt.Sprintf("%d of %d blocks, %d transactions, %v", limit, len(chain), len(m.Txs), os_)
			t.Sample("%s", what)
			var wg sync.WaitGroup
			for i := 0; i < at; i++ {
				wg.Add(1)
				go func(i int) { defer wg.Done(); errs[i] = gather(dirs[i], os_[i], m, limit) }(i)
			}
			wg.Wait()
			n.Stop()
			for i, err := range errs {
				if err != nil {
					t.Fatalf("failed", "%s: gathering %d: %v", what, i, err)
				}
			}
			quiet(t, what, anyPkg, dirs...)
			part := m
			if limit < int64(len(chain)) {
				part = store.NewModel(chain, int(limit))
			}
			for i, d := range dirs {
				v, err := store.OpenReadOnly(d, true, false, true)
				t.NoErr(err, "open")
				store.Verify(t, fmt.Sprintf("%s: gathering %d", what, i), part, v, verify)
				kit.Must(os.RemoveAll(d))
			}
			t.Count("gatherings", int64(at))
			t.CountMax("gatherings_at_a_time", int64(at))
			t.CountMax("blocks_fetched_at_a_time", int64(n.MaxInflight))
			t.Distinct("pipeline", os_, limit, len(m.Txs))
		}
	}}
}

// forked: the node has another chain by the time of the main phase, whose hashes were
// not gathered. That ends with an error, and then nothing writes any more.
func forked(k, blocks int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("forked/%03d", k), Timeout: 10 * time.Minute, Run: func(t *kit.T) {
		t.Retire() // a node stays, and the fetching from it that goes on for nobody
		chain := btc.Chain(t.R, btc.RandChainOpts(t.R, 4+t.R.Intn(blocks)))
		m := store.NewModel(chain, len(chain))
		o := draw(t.R, k)
		dir := t.SubDir("f")
		keep := 1 + t.R.Intn(len(chain)-1)
		what := fmt.Sprintf("%d blocks, %d transactions, %v, another chain from block %d", len(chain), len(m.Txs), o, keep)
		n := serve(t, chain, false)
		t.NoErr(one(o)(dir, o.JSON, int64(len(chain)), int64(len(m.Txs)), o.Threads, "\n"), what+": phase one")
		t.NoErr(store.Index(dir, o.Adaptive, o.Threads, m), what+": indexing")
		n.Stop()
		fork := btc.Fork(t.R, chain, keep)
		n = serve(t, fork, false)
		err := three(dir, o, m, int64(len(chain)))
		t.Evals(1)
		if err == nil {
			t.Fatalf("unnoticed", "%s: the main phase ended without an error", what)
		}
		quiet(t, what+fmt.Sprintf(" (%v)", err), storePkgs, dir)
		t.Count("failed_main_phases", 1)
		t.Distinct("forked", o, keep, len(m.Txs))
		kit.Must(os.RemoveAll(dir))
	}}
}

// source: a source chain fails somewhere while it is appended, with other stores being appended at the same time.
func source(k, runs, blocks int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("source/%02d", k), Timeout: 10 * time.Minute, Run: func(t *kit.T) {
		for run := 0; run < runs; run++ {
			at := 1 + t.R.Intn(3)
			type one struct {
				dir, what, failed string
				m                 *store.Model
				s                 *store.Source
				chi, delegated    bool
				n                 int
				err               error
				hashed            bool
				seed              int64
			}
			var ones []*one
			for i := 0; i < at; i++ {
				x := &one{dir: t.SubDir(fmt.Sprintf("s%d-%d", run, i)), chi: t.R.Intn(2) == 0, delegated: t.R.Intn(2) == 0, seed: t.R.Int63()}
				co := btc.RandChainOpts(t.R, 1+t.R.Intn(blocks))
				co.Dups = co.Dups && x.delegated
				chain := btc.Chain(t.R, co)
				x.m = store.NewModel(chain, len(chain))
				x.s = store.RandSource(t.R, x.m, x.delegated)
				x.what = fmt.Sprintf("%d blocks, %d transactions, chi %v, delegated %v, %s", len(chain), len(x.m.Txs), x.chi, x.delegated, x.s)
				ones = append(ones, x)
			}
			failing := t.R.Intn(3) != 0
			var wg sync.WaitGroup
			for _, x := range ones {
				wg.Add(1)
				go func(x *one) {
					defer wg.Done()
					r := rand.New(rand.NewSource(x.seed))
					if x.err = store.GatherHashes(x.dir, x.s, r.Intn(2) == 0, len(x.m.Blocks)); x.err != nil {
						return
					}
					if x.err = store.Index(x.dir, r.Intn(2) == 0, 1+r.Intn(8), x.m); x.err != nil {
						return
					}
					acc, err := store.Creator(x.dir, x.delegated, blockNeis, transNeis)
					if err == nil {
						err = acc.CreateFromHashStores()
					}
					var w *store.Writer
					if err == nil {
						w, err = store.Open(acc, x.s, x.chi, x.delegated)
					}
					if x.err = err; err != nil {
						return
					}
					x.hashed = true
					if failing {
						// fail in one block: at the i-th call of one kind, and after it too or not
						kinds := []string{"TxiCount", "TxoCount", "NthTxi", "NthTxo", "SourceTxo", "Satoshis", "Address", "AddressInterface", "TxiInterface", "TxoInterface", "Trans.NonEssentialInts", "TransInterface", "Trans.Hash"}
						if x.chi {
							kinds = []string{"GetTxiInfo", "GetTxoInfo", "GetTransactionInfo", "GetBlockInfo"}
						}
						kind, nth, always := kinds[r.Intn(len(kinds))], r.Intn(40), r.Intn(2) == 0
						var mu sync.Mutex
						count := 0
						x.s.Fail = func(call string) error {
							mu.Lock()
							defer mu.Unlock()
							if call != kind {
								return nil
							}
							count++
							if count-1 == nth || always && count > nth {
								x.failed = fmt.Sprintf("%s call %d", kind, count-1)
								return errors.New("the source fails at " + x.failed)
							}
							return nil
						}
					}
					for ; x.n < len(x.m.Blocks); x.n++ {
						if x.err = w.Block(x.n); x.err != nil {
							break
						}
					}
					if x.err == nil || r.Intn(2) == 0 {
						w.Ac.Close()
					}
				}(x)
			}
			wg.Wait()
			var dirs, whats []string
			for _, x := range ones {
				dirs, whats = append(dirs, x.dir), append(whats, x.what+" "+x.failed)
				t.Distinct("source", x.chi, x.delegated, *x.m, x.failed)
				if x.err != nil && (x.failed == "" || !x.hashed) {
					t.Fatalf("failed", "%s: %v", x.what, x.err)
				}
				if x.err == nil && x.failed != "" {
					t.Fatalf("source-error-lost", "%s: the source failed at %s and no append gave an error", x.what, x.failed)
				}
				if x.failed != "" {
					t.Count("appends_failed", 1)
				}
			}
			sort.Strings(whats)
			quiet(t, strings.Join(whats, "; "), storePkgs, dirs...)
			for _, x := range ones {
				if x.err == nil {
					v, err := store.OpenReadOnly(x.dir, x.delegated, false, true)
					t.NoErr(err, "open")
					store.Verify(t, x.what, x.m, v, verify)
					t.Count("stores_appended", 1)
				}
				kit.Must(os.RemoveAll(x.dir))
			}
			t.CountMax("stores_appended_at_a_time", int64(at))
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:    "C26",
		Level: "exploration",
		Rule: "under the race detector: whole gatherings (all combinations of format, interface, indexing, 1-32 threads; up to three at a time) from a node that answers in random order and now and then fails; main phases that fail because the node's chain was replaced; " +
			"stores appended side by side from sources that fail at a random call. After each: no goroutine of the code is left (after a failure: none in the code that writes the store), files stay as they are, what was completed reads back right. Distinct: option combinations with sizes and failing calls",
		Assumptions: []string{"the race detector sees the races of the schedules that ran", "an open store is used by one goroutine at a time (what goroutines it starts itself aside)"},
		Cases: func(tier string, seed int64) []kit.Case {
			n, runs, blocks := 12, 2, 30
			if tier == "thorough" {
				n, runs, blocks = 48, 24, 120
			}
			var cs []kit.Case
			for k := 0; k < n; k++ {
				cs = append(cs, pipeline(k, runs, blocks), source(k, runs*4, blocks/2))
			}
			for k := 0; k < n*runs/2; k++ {
				cs = append(cs, forked(k, blocks/2))
			}
			return cs
		},
		MinEvals: 2000,
	})
}
