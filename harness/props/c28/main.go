// C28: closing gives every file back, and so does an open that fails.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/faulty"
	"verifharness/lib/fdmon"
	"verifharness/lib/node"
	"verifharness/lib/store"
	"verifharness/lib/subjects"

	"github.com/KitchenMishap/pudding-shed/jobs"
)

// ours are the goroutines with code of the repository.
func ours() []string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var l []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "KitchenMishap/pudding-shed") && !strings.Contains(g, "main.ours(") {
			l = append(l, g)
		}
	}
	return l
}

func noGoroutines(t *kit.T, what string) {
	var l []string
	for k := 0; k < 200; k++ {
		if l = ours(); len(l) == 0 {
			t.Evals(1)
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatalf("goroutine", "%s: %d goroutines stay, among them\n%s", what, len(l), l[0])
}

var damages = []string{"missing", "one byte too short", "empty", "a folder"}

var digits = regexp.MustCompile(`[0-9]+`)

// nothing of the folder may be open.
func nothing(t *kit.T, sig, what, dir string) {
	t.Evals(1)
	if l := fdmon.Open(dir); len(l) > 0 {
		t.Fatalf(sig, "%s: still open: %s", what, fdmon.Short(l))
	}
}

func bad(t *kit.T, what string, err error) {
	if err != nil {
		t.Fatalf("use", "%s: %v", what, err)
	}
}

// try runs f, which may panic on a damaged folder.
func try(f func() error) (err error, panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	return f(), false
}

func subject(s subjects.Subject, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("%s/%d", s.Name, k), Timeout: 5 * time.Minute, Run: func(t *kit.T) {
		defer fdmon.Hold()()
		r := t.R
		x := s.New(r)
		dir := t.SubDir("x")
		t.NoErr(x.Build(dir), "building")
		nothing(t, "built", s.Name+" after it was built", dir)
		noGoroutines(t, s.Name+" after it was built")
		t.Count("built", 1)

		session := func(what string, dir string, y subjects.Session, rounds int) {
			base := fdmon.Open(dir)
			t.CountMax("files", int64(len(base)))
			for ; rounds > 0; rounds-- {
				if y.Append != nil && r.Intn(2) == 0 {
					bad(t, what, y.Append(r, 1+r.Intn(12)))
					t.Count("appends", 1)
				} else {
					bad(t, what, y.Read(t, r, 10+r.Intn(60)))
					t.Count("reads", 1)
				}
				if y.Sync != nil && r.Intn(4) == 0 {
					bad(t, what, y.Sync())
				}
				t.Evals(1)
				if now := fdmon.Open(dir); len(now) > len(base)+4 {
					t.Fatalf("grows", "%s: %d files open when opened, now %d: %s", what, len(base), len(now), fdmon.Short(now))
				}
			}
		}
		if x.RW != nil {
			for n := 2 + r.Intn(4); n > 0; n-- {
				what := s.Name + " opened for writing"
				y, err := x.RW(dir)
				t.NoErr(err, "opening")
				session(what, dir, y, 3+r.Intn(8))
				if y.Close == nil {
					bad(t, what, y.Sync())
					nothing(t, "synced", what+", after Sync", dir)
				} else {
					bad(t, what, y.Close())
					nothing(t, "closed", what+", after Close", dir)
				}
				noGoroutines(t, what+" and closed")
				t.Count("write_sessions", 1)
			}
		}
		if x.RO != nil {
			ro := t.SubDir("ro")
			kit.Must(store.CopyDir(dir, ro))
			n := 1 + r.Intn(4)
			var open []subjects.Session
			for i := 0; i < n; i++ {
				y, err := x.RO(ro)
				t.NoErr(err, "opening read only")
				open = append(open, y)
			}
			base := len(fdmon.Open(ro))
			for i := 0; i < 4; i++ {
				bad(t, s.Name, open[r.Intn(n)].Read(t, r, 40))
			}
			t.Evals(1)
			if now := fdmon.Open(ro); len(now) > base+4*n {
				t.Fatalf("grows", "%s read only: %d files open when opened, now %d: %s", s.Name, base, len(now), fdmon.Short(now))
			}
			closed := 0
			for _, y := range open {
				if y.Close != nil {
					bad(t, s.Name+" read only", y.Close())
					closed++
				}
			}
			if closed > 0 {
				nothing(t, "closed-ro", s.Name+" read only, after Close", ro)
			}
			t.Count("read_sessions", int64(n))
		}

		// a file is missing or not as it should be
		files := subjects.Files(dir)
		sort.Strings(files)
		// one of each kind is enough
		kinds := map[string]bool{}
		r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
		for i, f := range files {
			kind := digits.ReplaceAllString(f, "9")
			if kinds[kind] || len(kinds) > 24 {
				continue
			}
			kinds[kind] = true
			for _, how := range []string{"for writing", "read only"} {
				open := x.RW
				if how == "read only" {
					open = x.RO
				}
				if open == nil {
					continue
				}
				for j, damage := range damages {
					d := t.SubDir(fmt.Sprintf("m%d%s%d", i, how[:1], j))
					kit.Must(store.CopyDir(dir, d))
					path := filepath.Join(d, f)
					fi, err := os.Stat(path)
					kit.Must(err)
					switch damage {
					case "missing":
						kit.Must(os.Remove(path))
					case "one byte too short":
						if fi.Size() == 0 {
							continue
						}
						kit.Must(os.Truncate(path, fi.Size()-1))
					case "empty":
						kit.Must(os.Truncate(path, 0))
					case "a folder":
						kit.Must(os.Remove(path))
						kit.Must(os.Mkdir(path, 0755))
					}
					var y subjects.Session
					err, panicked := try(func() (err error) { y, err = open(d); return err })
					switch {
					case panicked:
						t.Count("panics_on_damaged_folders", 1)
					case err != nil:
						nothing(t, "failed-open:"+damage, fmt.Sprintf("%s with %s %s, opening %s failed (%v)", s.Name, f, damage, how, err), d)
						t.Count("failed_opens", 1)
					case y.Close != nil:
						if err, panicked = try(y.Close); !panicked && err == nil {
							nothing(t, "closed-damaged:"+damage, fmt.Sprintf("%s with %s %s, opened %s and closed", s.Name, f, damage, how), d)
						}
						t.Count("opens_of_damaged_folders", 1)
					}
					kit.Must(os.RemoveAll(d))
				}
			}
		}
		noGoroutines(t, s.Name+" after failing opens")
		t.Distinct(s.Name, k)
	}}
}

// job runs whole jobs in this process. Those that fail meet a folder where a
// file of theirs has to go (phase one), or find that the node has changed its
// mind about the chain since phase one (phase three).
func job(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("job/%d", k), Timeout: 5 * time.Minute, Run: func(t *kit.T) {
		defer fdmon.Hold()()
		r := t.R
		co := btc.RandChainOpts(r, 20+r.Intn(60))
		co.Dups, co.Big, co.Wide = false, false, false
		chain := btc.Chain(r, co)
		m := store.NewModel(chain, len(chain))
		fails, inOne := k%3 != 0, k%3 == 1 // fails in phase one, or in phase three
		n := node.New(chain, rand.New(rand.NewSource(r.Int63())))
		n.Start()
		dir := t.SubDir("job")
		js, handles, adaptive, threads := r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, 1+r.Intn(6)
		what := fmt.Sprintf("%d blocks, JSON %v, handles %v, adaptive %v, %d threads", len(chain), js, handles, adaptive, threads)
		t.Sample("%s, failing: %v", what, fails)
		one, three := jobs.PhaseOneParallelIntrinsic, jobs.PhaseThreeParallelIntrinsic
		if handles {
			one, three = jobs.PhaseOneParallelIntrinsicChi, jobs.PhaseThreeParallelIntrinsicChi
		}
		t.NoErr(one(dir, js, int64(len(chain)), int64(len(m.Txs)), threads, "\n"), "phase one of "+what)
		nothing(t, "phase-one", "after phase one of "+what, dir)
		t.Count("phases", 1)
		if inOne {
			files := subjects.Files(dir)
			for i, f := range files {
				d2 := t.SubDir(fmt.Sprintf("one%d", i))
				kit.Must(os.MkdirAll(filepath.Join(d2, f, "x"), 0o755))
				var err error
				p := kit.Panics(func() { err = one(d2, js, int64(len(chain)), int64(len(m.Txs)), threads, "\n") })
				if p != "" {
					t.Count("panics", 1)
				} else if err == nil {
					t.Fatalf("phase-one-fails", "phase one of %s succeeded with a folder in the place of %s", what, f)
				}
				nothing(t, "phase-one-fails", fmt.Sprintf("after phase one of %s failed for a folder in the place of %s (%v %s)", what, f, err, p), d2)
				t.Count("phases_failed", 1)
			}
			// a disk that fails amid the run
			count := &faulty.Plan{Dir: t.Dir(), Kinds: faulty.Writing, At: -1}
			count.Arm()
			err := one(t.SubDir("count"), js, int64(len(chain)), int64(len(m.Txs)), threads, "\n")
			faulty.Disarm()
			t.NoErr(err, "phase one of "+what)
			for i, at := range count.Points(r, 12) {
				d2 := t.SubDir(fmt.Sprintf("amid%d", i))
				plan := &faulty.Plan{Dir: d2, Kinds: faulty.Writing, At: at, Mode: r.Intn(faulty.Modes), Err: faulty.WriteErrno(r)}
				plan.Arm()
				p := kit.Panics(func() { err = one(d2, js, int64(len(chain)), int64(len(m.Txs)), threads, "\n") })
				faulty.Disarm()
				if plan.Failed == 0 {
					continue
				}
				how := fmt.Sprintf("after phase one of %s, %s failing (%v %s)", what, plan.First, err, p)
				if p == "" && err == nil {
					t.Count("phases_which_did_not_notice", 1) // C25's
				}
				nothing(t, "phase-one-fails-amid", how, d2)
				t.Count("phases_failed_amid", 1)
			}
			t.Distinct("job", js, handles, adaptive, "one")
			t.Retire() // what fetches blocks for a job that failed goes on
			return
		}
		t.NoErr(store.Index(dir, adaptive, threads, m), "indexing")
		nothing(t, "indexed", "after indexing", dir)
		acc, err := store.Creator(dir, true, store.BlockNeis, store.TransNeis)
		t.NoErr(err, "creator")
		t.NoErr(acc.CreateFromHashStores(), "CreateFromHashStores")
		nothing(t, "created", "after CreateFromHashStores", dir)
		ac, ind, err := acc.OpenWithIndexer()
		t.NoErr(err, "OpenWithIndexer")
		if fails {
			n.Stop()
			co.Blocks = len(chain)
			n = node.New(btc.Chain(r, co), rand.New(rand.NewSource(r.Int63())))
			n.Start()
		}
		var p string
		p = kit.Panics(func() { err = three(int64(len(chain)), js, int64(len(m.Txs)), ac, ind, threads, "\n") })
		if p != "" || (err != nil) != fails {
			t.Fatalf("phase-three", "phase three of %s, failing: %v, gave %v %s", what, fails, err, p)
		}
		nothing(t, "phase-three", fmt.Sprintf("after phase three of %s (%v)", what, err), dir)
		t.Count("phases", 1)
		t.Distinct("job", js, handles, adaptive, fails)
		if !fails {
			n.Stop()
		}
		t.Retire()
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID: "C28", Level: "exercised", MinEvals: 2000, CaseTimeout: 5 * time.Minute,
		Rule: "everything that can be opened is built, opened, used and closed over several sessions, and opened with files missing or damaged, with garbage collection held back; the open and mapped files of the process below the folder, and the goroutines in the repository's code, are listed at each point. Distinct: kinds and draws",
		Assumptions: []string{"a chain opened read only has no Close: its files are only required not to grow in number",
			"an open that panics on a damaged folder is not judged"},
		Cases: func(tier string, seed int64) []kit.Case {
			n, nj := 3, 12
			if tier == "thorough" {
				n, nj = 40, 150
			}
			var cs []kit.Case
			for k := 0; k < n; k++ {
				for _, s := range subjects.All() {
					if s.Name == "deep-cake" && k > 0 && tier != "thorough" {
						continue
					}
					cs = append(cs, subject(s, k))
				}
			}
			for k := 0; k < nj; k++ {
				cs = append(cs, job(k))
			}
			return cs
		},
	})
}
