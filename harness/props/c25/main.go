// C25: a write that fails is reported, never passed off as success.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/jobs"
	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/node"
	"verifharness/lib/store"
)

const uid = 65534 // an account without privileges

var phaseNames = []string{"one", "index", "create", "three", "append"}

// job is what the other process does.
type job struct {
	Seed    int64
	Blocks  int
	Dups    bool
	Phase   string
	JSON    bool
	Chi     bool
	Adapt   bool
	Deleg   bool
	Threads int
	First   int   // append: blocks there already
	Rlimit  int64 // bytes a file may have; <0: no limit
	Drop    bool  // give up privileges
}

func (j job) String() string {
	return fmt.Sprintf("phase %s: %d blocks (from %d), JSON %v, handles %v, adaptive %v, delegated %v, %d threads", j.Phase, j.Blocks, j.First, j.JSON, j.Chi, j.Adapt, j.Deleg, j.Threads)
}

func (j job) chain() []*btc.Block {
	r := kit.NewRand(j.Seed, "chain")
	co := btc.RandChainOpts(r, j.Blocks)
	co.Dups = co.Dups && j.Dups
	return btc.Chain(r, co)
}

// do does the job in the folder dir; the phases before it have been done.
func (j job) do(dir string) error {
	chain := j.chain()
	m := store.NewModel(chain, len(chain))
	var n *node.Node
	if j.Phase == "one" || j.Phase == "three" {
		n = node.New(chain, kit.NewRand(j.Seed, "node"))
		n.Start()
	}
	switch j.Phase {
	case "one":
		f := jobs.PhaseOneParallelIntrinsic
		if j.Chi {
			f = jobs.PhaseOneParallelIntrinsicChi
		}
		return f(dir, j.JSON, int64(len(chain)), int64(len(m.Txs)), j.Threads, "\n")
	case "index":
		return store.Index(dir, j.Adapt, j.Threads, m)
	case "create":
		acc, err := store.Creator(dir, j.Deleg, store.BlockNeis, store.TransNeis)
		if err != nil {
			return err
		}
		return acc.CreateFromHashStores()
	}
	acc, err := store.Creator(dir, j.Deleg, store.BlockNeis, store.TransNeis)
	if err != nil {
		return err
	}
	if j.Phase == "three" {
		var ac chainstorage.IAppendableChain
		ac, ind, err := acc.OpenWithIndexer()
		if err != nil {
			return err
		}
		f := jobs.PhaseThreeParallelIntrinsic
		if j.Chi {
			f = jobs.PhaseThreeParallelIntrinsicChi
		}
		return f(int64(len(chain)), j.JSON, int64(len(m.Txs)), ac, ind, j.Threads, "\n")
	}
	r := kit.NewRand(j.Seed, "append")
	w, err := store.Open(acc, store.RandSource(r, m, j.Deleg), j.Chi, j.Deleg)
	if err != nil {
		return err
	}
	for h := j.First; h < len(chain); h++ {
		if err = w.Block(h); err != nil {
			return fmt.Errorf("block %d: %w", h, err)
		}
		if r.Intn(6) == 0 {
			if err = w.Ac.Sync(); err != nil {
				return fmt.Errorf("Sync after block %d: %w", h, err)
			}
		}
	}
	err = w.Ac.Sync()
	w.Ac.Close()
	return err
}

// runSub does the job in the current folder's "store".
func runSub(spec string) {
	var j job
	kit.Must(json.Unmarshal([]byte(spec), &j))
	out := os.Stdout
	os.Stdout = os.Stderr
	if j.Rlimit >= 0 {
		signal.Ignore(syscall.SIGXFSZ)
		kit.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(j.Rlimit), Max: uint64(j.Rlimit)}))
	}
	if j.Drop {
		kit.Must(syscall.Setgroups(nil))
		kit.Must(syscall.Setgid(uid))
		kit.Must(syscall.Setuid(uid))
	}
	err := j.do("store")
	if err != nil {
		fmt.Fprintf(out, "\nRESULT failed: %v\n", err)
	} else {
		fmt.Fprintf(out, "\nRESULT done\n")
	}
	os.Exit(0)
}

// sub runs the job in a process of its own, perhaps under a tracer, and tells how it ended.
func (j job) sub(t *kit.T, what, base string, tracer []string) (done bool, msg string) {
	spec, err := json.Marshal(j)
	kit.Must(err)
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	args := append(tracer, "/proc/self/exe")
	if len(tracer) == 0 {
		args[0] = os.Args[0]
	} else {
		args[len(args)-1] = os.Args[0]
	}
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Dir = base
	cmd.Env = append(os.Environ(), "C25_SUB="+string(spec), "GOTRACEBACK=single")
	var errs strings.Builder
	cmd.Stderr = &tail{b: &errs}
	out, err := cmd.Output()
	if ctx.Err() != nil {
		t.Fatalf("hang", "%s: not finished after 4 minutes", what)
	}
	if i := strings.LastIndex(string(out), "RESULT "); i >= 0 && err == nil {
		msg = strings.TrimSpace(string(out)[i+7:])
		t.Evals(1)
		return msg == "done", msg
	}
	e := errs.String()
	if i := strings.Index(e, "panic: "); i >= 0 {
		e = e[i:]
	}
	if i := strings.Index(e, "HARNESS: "); i >= 0 {
		panic(e[i:])
	}
	if len(e) > 1500 {
		e = e[:1500]
	}
	t.Fatalf("crash", "%s: the process ended with %v and no result: %s", what, err, e)
	return
}

// tail keeps the first and the last of what is written.
type tail struct{ b *strings.Builder }

func (w *tail) Write(p []byte) (int, error) {
	if w.b.Len() < 1<<20 {
		w.b.Write(p)
	}
	return len(p), nil
}

// before does the phases before the job's, in this process.
func (j job) before(t *kit.T, dir string) {
	chain := j.chain()
	m := store.NewModel(chain, len(chain))
	src := store.RandSource(kit.NewRand(j.Seed, "before"), m, j.Deleg)
	done := func(err error, what string) { t.NoErr(err, "without a fault: "+what) }
	if j.Phase == "one" {
		kit.Must(os.MkdirAll(dir, 0755))
		return
	}
	done(store.GatherHashes(dir, src, false, len(chain)), "gather hashes")
	if j.Phase == "index" {
		return
	}
	done(store.Index(dir, j.Adapt, 2, m), "index")
	if j.Phase == "create" {
		return
	}
	acc, err := store.Creator(dir, j.Deleg, store.BlockNeis, store.TransNeis)
	done(err, "creator")
	done(acc.CreateFromHashStores(), "CreateFromHashStores")
	if j.Phase == "three" {
		return
	}
	w, err := store.Open(acc, src, j.Chi, j.Deleg)
	done(err, "open")
	for h := 0; h < j.First; h++ {
		done(w.Block(h), fmt.Sprintf("block %d", h))
	}
	done(w.Ac.Sync(), "sync")
	w.Ac.Close()
}

// after does the phases after the job's, as they find what it left, and compares the store.
func (j job) after(t *kit.T, what, dir string) {
	chain := j.chain()
	m := store.NewModel(chain, len(chain))
	src := store.RandSource(kit.NewRand(j.Seed, "after"), m, j.Deleg)
	done := func(err error, step string) {
		if err != nil {
			t.Fatalf("success-but", "%s, which was reported as done; then %s, without a fault: %v", what, step, err)
		}
	}
	at := 0
	for i, p := range phaseNames {
		if p == j.Phase {
			at = i
		}
	}
	if at < 1 {
		done(store.Index(dir, j.Adapt, 2, m), "index")
	}
	if at < 2 {
		acc, err := store.Creator(dir, j.Deleg, store.BlockNeis, store.TransNeis)
		done(err, "creator")
		done(acc.CreateFromHashStores(), "CreateFromHashStores")
	}
	if at < 3 {
		acc, err := store.Creator(dir, j.Deleg, store.BlockNeis, store.TransNeis)
		done(err, "creator")
		w, err := store.Open(acc, src, j.Chi, j.Deleg)
		done(err, "open")
		for h := range chain {
			done(w.Block(h), fmt.Sprintf("append block %d", h))
		}
		done(w.Ac.Sync(), "sync")
		w.Ac.Close()
	}
	v, err := store.OpenReadOnly(dir, j.Deleg, false, true)
	done(err, "OpenReadOnly")
	store.Verify(t, what+", which was reported as done; the store", m, v, store.Opts{BlockNeis: store.BlockNeis, TransNeis: store.TransNeis, Absent: 5, Addrs: 30})
	t.Count("successes_compared", 1)
}

// prefix: the first n blocks can still be read. Counts of the last block and transaction, and of
// outputs of an address, may already include some of the block that failed.
func (j job) prefix(t *kit.T, what, dir string, n int) {
	m := store.NewModel(j.chain(), n)
	what += ", which failed; what was stored before"
	bad := func(f string, a ...interface{}) { t.Fatalf("lost", "%s: %s", what, fmt.Sprintf(f, a...)) }
	no := func(err error, f string, a ...interface{}) {
		if err != nil {
			bad("%s: %v", fmt.Sprintf(f, a...), err)
		}
		t.Evals(1)
	}
	v, err := store.OpenReadOnly(dir, j.Deleg, false, false)
	if err != nil { // a store that refuses to open does not pass for a good one
		t.Count("failures_after_which_the_store_refuses", 1)
		return
	}
	for h, b := range m.Blocks {
		hb, err := v.Hc.BlockHandleByHash(indexedhashes.Sha256(b.Hash))
		no(err, "block %d by hash", h)
		bl, err := v.Bc.BlockInterface(hb)
		no(err, "block %d", h)
		if bl.Height() != int64(h) {
			bad("block %d, by hash, is %d", h, bl.Height())
		}
		c, err := bl.TransactionCount()
		no(err, "transactions of block %d", h)
		if h < n-1 && c != int64(b.NTx) || c < int64(b.NTx) {
			bad("block %d has %d transactions, not %d", h, c, b.NTx)
		}
		neis, err := bl.NonEssentialInts()
		no(err, "statistics of block %d", h)
		_ = neis
	}
	for i, x := range m.Txs {
		ht, err := v.Hc.TransactionHandleByHash(indexedhashes.Sha256(x.Hash))
		no(err, "transaction %d by hash", i)
		if ht.Height() != int64(x.First) {
			bad("transaction %d, by hash, is %d", i, ht.Height())
		}
		ht, err = v.Hc.TransactionHandleByHeight(int64(i))
		no(err, "transaction %d", i)
		tr, err := v.Bc.TransInterface(ht)
		no(err, "transaction %d", i)
		c, err := tr.TxiCount()
		no(err, "inputs of transaction %d", i)
		if i < len(m.Txs)-1 && c != int64(x.NTxi) || c < int64(x.NTxi) {
			bad("transaction %d has %d inputs, not %d", i, c, x.NTxi)
		}
		c, err = tr.TxoCount()
		no(err, "outputs of transaction %d", i)
		if i < len(m.Txs)-1 && c != int64(x.NTxo) || c < int64(x.NTxo) {
			bad("transaction %d has %d outputs, not %d", i, c, x.NTxo)
		}
		p, err := v.Par.ParentBlockOfTrans(int64(i))
		no(err, "block of transaction %d", i)
		if p != int64(x.Block) {
			bad("transaction %d is of block %d, not %d", i, p, x.Block)
		}
	}
	type words interface {
		ReadWordAt(int64) (int64, error)
	}
	word := func(name string, f words, i int, want int64) {
		got, err := f.ReadWordAt(int64(i))
		no(err, "%s %d", name, i)
		if got != want {
			bad("%s %d is %d, not %d", name, i, got, want)
		}
	}
	for i, x := range m.Txos {
		word("satoshis of output", v.Pf.TxoSatsFile(), i, x.Sats)
	}
	for i, x := range m.Txis {
		word("source transaction of input", v.Pf.TxiTxFile(), i, int64(x.Src))
		word("source index of input", v.Pf.TxiVoutFile(), i, x.Vout)
	}
	for a, txos := range m.AddrTxos {
		ha, err := v.Hc.AddressHandleByHash(indexedhashes.Sha256(m.AddrHash[a]))
		no(err, "address %d by hash", a)
		ad, err := v.Bc.AddressInterface(ha)
		no(err, "address %d", a)
		c, err := ad.TxoCount()
		no(err, "outputs of address %d", a)
		if c < int64(len(txos)) {
			bad("address %d has %d outputs, not %d", a, c, len(txos))
		}
		for k, x := range txos {
			ho, err := ad.NthTxo(int64(k))
			no(err, "output %d of address %d", k, a)
			if ho.TxoHeight() != int64(x) {
				bad("output %d of address %d is %d, not %d", k, a, ho.TxoHeight(), x)
			}
		}
	}
	t.Count("failures_with_older_blocks_compared", 1)
}

func draw(t *kit.T, phase string, blocks int) job {
	j := job{Seed: t.R.Int63(), Blocks: 2 + t.R.Intn(blocks), Dups: true, Phase: phase, JSON: t.R.Intn(2) == 0, Chi: t.R.Intn(2) == 0, Adapt: t.R.Intn(2) == 0, Deleg: true,
		Threads: 1 + t.R.Intn(8), Rlimit: -1}
	if phase == "append" || phase == "create" {
		j.Deleg = t.R.Intn(2) == 0
	}
	if !j.Deleg {
		j.Dups = false
	}
	if phase == "append" {
		j.First = 1 + t.R.Intn(j.Blocks-1)
	}
	return j
}

// tree lists files and folders below a folder.
func tree(dir string) (files, dirs []string, sizes map[string]int64) {
	sizes = map[string]int64{}
	kit.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			dirs = append(dirs, rel)
			return nil
		}
		i, err := d.Info()
		if err != nil {
			return err
		}
		files = append(files, rel)
		sizes[rel] = i.Size()
		return nil
	}))
	return
}

func chown(dir string) {
	kit.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		return os.Lchown(p, uid, uid)
	}))
}

// judge looks at what a job with a fault left.
func (j job) judge(t *kit.T, what, base string, done bool, msg string) {
	dir := filepath.Join(base, "store")
	if done {
		t.Count("reported_done", 1)
		j.after(t, what, dir)
		return
	}
	t.Count("reported_failed", 1)
	t.Count("reported_failed_in_"+j.Phase, 1)
	t.Sample("%s -> %s", what, msg)
	if j.Phase == "append" {
		j.prefix(t, what, dir, j.First)
	}
}

// faulty: one store, then the same job with many faults.
func faulty(phase string, k, runs, faults, blocks int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("%s/%02d", phase, k), Timeout: 12 * time.Minute, Run: func(t *kit.T) {
		for run := 0; run < runs; run++ {
			j := draw(t, phase, blocks)
			base := t.SubDir(fmt.Sprintf("r%d", run))
			clean, ref := filepath.Join(base, "clean"), filepath.Join(base, "ref")
			j.before(t, clean)
			kit.Must(os.MkdirAll(ref, 0755))
			kit.Must(store.CopyDir(clean, filepath.Join(ref, "store")))
			if ok, msg := j.sub(t, j.String()+", without a fault", ref, nil); !ok {
				t.Fatalf("failed", "%s, without a fault: %s", j, msg)
			}
			files, dirs, sizes := tree(filepath.Join(ref, "store"))
			_, _, old := tree(clean)
			var written []string // what the phase writes
			was, is := store.Tree(clean), store.Tree(filepath.Join(ref, "store"))
			for _, f := range files {
				if was[f] != is[f] {
					written = append(written, f)
				}
			}
			sort.Strings(written)
			t.CountMax("files_written_by_a_phase", int64(len(written)))
			if run == 0 {
				j.after(t, j.String()+", without a fault", filepath.Join(ref, "store"))
			}
			for f := 0; f < faults && len(written) > 0; f++ {
				jj := j
				at := filepath.Join(base, fmt.Sprintf("f%d", f))
				st := filepath.Join(at, "store")
				kit.Must(os.MkdirAll(at, 0755))
				kit.Must(store.CopyDir(clean, st))
				file := written[t.R.Intn(len(written))]
				var tracer []string
				kind := []string{"size", "size", "size", "mode", "path", "trace", "trace", "trace"}[t.R.Intn(8)]
				what := ""
				log := filepath.Join(at, "log")
				switch kind {
				case "size":
					// some file stops growing somewhere between what it was and what it becomes
					lim := old[file] + t.R.Int63n(sizes[file]-min64(old[file], sizes[file])+1)
					if t.R.Intn(3) == 0 {
						lim = sizes[file] - 1 - t.R.Int63n(9)
					}
					if lim < 0 || t.R.Intn(20) == 0 {
						lim = 0
					}
					jj.Rlimit = lim
					what = fmt.Sprintf("no file may grow beyond %d bytes (of %d of %s)", lim, sizes[file], file)
				case "mode":
					chown(st)
					kit.Must(os.Lchown(at, uid, uid))
					jj.Drop = true
					p, mode := file, os.FileMode(0444)
					if t.R.Intn(2) == 0 {
						p, mode = dirs[t.R.Intn(len(dirs))], 0555
					}
					if _, err := os.Lstat(filepath.Join(st, p)); err != nil {
						// it is not there yet, but its folder may be
						p, mode = filepath.Dir(p), 0555
					}
					for {
						if _, err := os.Lstat(filepath.Join(st, p)); err == nil {
							break
						}
						p = filepath.Dir(p)
					}
					kit.Must(os.Chmod(filepath.Join(st, p), mode))
					what = fmt.Sprintf("%s cannot be written", p)
				case "path":
					p := filepath.Join(st, file)
					if _, err := os.Lstat(p); err == nil && j.Phase == "append" {
						os.RemoveAll(at)
						continue // that would be a damaged store, not a failing write
					}
					os.MkdirAll(filepath.Dir(p), 0755)
					os.Remove(p)
					if err := os.MkdirAll(filepath.Join(p, "in the way"), 0755); err != nil {
						os.RemoveAll(at)
						continue
					}
					what = fmt.Sprintf("there is a folder in the place of %s", file)
				case "trace":
					call := []string{"write,pwrite64", "write,pwrite64", "write,pwrite64", "ftruncate", "openat", "fsync", "mkdirat"}[t.R.Intn(7)]
					errno := []string{"ENOSPC", "EIO", "EDQUOT"}[t.R.Intn(3)]
					if call == "openat" {
						errno = []string{"EACCES", "ENOSPC", "EMFILE"}[t.R.Intn(3)]
					}
					when := fmt.Sprint(1 + t.R.Intn(1<<uint(t.R.Intn(7))))
					if t.R.Intn(3) == 0 {
						when += "+"
					}
					if call == "openat" {
						when = "1" // the first time, or what reads afterwards would fail too
					}
					tracer = []string{"strace", "-f", "-qq", "-e", "signal=none", "-o", log, "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:error=%s:when=%s", call, errno, when)}
					some := []string{file}
					if t.R.Intn(2) == 0 {
						some = written
					}
					if call == "mkdirat" {
						some = dirs
					}
					if len(some) > 150 {
						some = some[:150]
					}
					for _, f := range some {
						tracer = append(tracer, "-P", filepath.Join("store", f), "-P", filepath.Join(st, f))
					}
					what = fmt.Sprintf("%s fails with %s, call %s of a thread, of %d files such as %s", call, errno, when, len(some), some[0])
				}
				what = j.String() + ", " + what
				if kind == "trace" && !canTrace() {
					t.Count("no_tracer", 1)
					os.RemoveAll(at)
					continue
				}
				done, msg := jj.sub(t, what, at, tracer)
				kit.Must(exec.Command("chmod", "-R", "u+rwX", st).Run())
				hit := 0
				if kind == "trace" {
					b, _ := os.ReadFile(log)
					hit = strings.Count(string(b), "(INJECTED)")
					t.Count("calls_failed_by_the_tracer", int64(hit))
					if hit > 0 {
						t.Count("runs_with_failed_calls", 1)
					}
				}
				jj.judge(t, what, at, done, msg)
				t.Count("faults_"+kind, 1)
				t.Distinct(phase, kind, file, done)
				kit.Must(os.RemoveAll(at))
			}
			kit.Must(os.RemoveAll(base))
		}
	}}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

var tracing = 0

// canTrace says whether the tracer works here.
func canTrace() bool {
	if tracing == 0 {
		tracing = -1
		if exec.Command("strace", "-f", "-qq", "-o", os.DevNull, "-e", "trace=write", "true").Run() == nil {
			tracing = 1
		}
	}
	return tracing > 0
}

func main() {
	if a := os.Getenv("C25_SUB"); a != "" {
		runSub(a)
	}
	kit.Main(kit.Prop{
		ID:    "C25",
		Level: "exploration",
		Rule: "each phase (hash gathering from a look-alike node, indexing, creation, main phase, appending to a store with blocks) runs in a process of its own in which writes fail: no file may grow beyond a size between the old and the final sizes (RLIMIT_FSIZE), " +
			"files or folders are not writable for its unprivileged user, a folder is in a file's way, or a tracer makes the n-th write, truncate, open, sync or mkdir of the store's files fail once or from then on. The process has to end with a result; " +
			"when it reports success the remaining phases are run and the whole store is compared with the chain, when an append fails and the store still opens, the earlier blocks are. Distinct: phase, kind of fault, file, outcome",
		Assumptions: []string{"a failed append may already have added to the counts of the last earlier block, transaction and address", "a failed close of a file that has been synced loses nothing"},
		Workers:     6,
		Cases: func(tier string, seed int64) []kit.Case {
			runs, faults, blocks, n := 2, 12, 30, 4
			if tier == "thorough" {
				runs, faults, blocks, n = 6, 60, 90, 16
			}
			var cs []kit.Case
			for k := 0; k < n; k++ {
				for _, p := range phaseNames {
					cs = append(cs, faulty(p, k, runs, faults, blocks))
				}
			}
			return cs
		},
		MinEvals: 10000,
	})
}
