// C29: reading changes nothing, and needs no permission to write.
package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifharness/kit"
	"verifharness/lib/fdmon"
	"verifharness/lib/store"
	"verifharness/lib/subjects"
)

const uid = 65534 // an account without privileges

// look lists everything about a folder that reading has to leave alone.
func look(dir string) map[string]string {
	l := store.Tree(dir)
	kit.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		fi, err := d.Info()
		if err != nil {
			return err
		}
		l[strings.TrimPrefix(p, dir)+" "] = fmt.Sprint(fi.Mode(), fi.ModTime().UnixNano(), fi.Sys().(*syscall.Stat_t).Nlink)
		return nil
	}))
	return l
}

// settle puts all times in the past, so that any change shows.
func settle(dir string) {
	old := time.Now().Add(-48 * time.Hour)
	var l []string
	kit.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		l = append(l, p)
		return err
	}))
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	for _, p := range l {
		kit.Must(os.Chtimes(p, old, old))
	}
}

func modes(dir string, file, folder os.FileMode) {
	var l []string
	kit.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		l = append(l, p)
		return err
	}))
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	for _, p := range l {
		fi, err := os.Stat(p)
		kit.Must(err)
		if fi.IsDir() {
			kit.Must(os.Chmod(p, folder))
		} else {
			kit.Must(os.Chmod(p, file))
		}
	}
}

// unprivileged runs f as an account that may write nowhere here.
func unprivileged(f func()) {
	kit.Must(syscall.Setreuid(0, uid))
	defer func() { kit.Must(syscall.Setreuid(0, 0)) }()
	f()
}

func bad(t *kit.T, sig, what string, err error) {
	if err != nil {
		t.Fatalf(sig, "%s: %v", what, err)
	}
}

func subject(s subjects.Subject, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("%s/%d", s.Name, k), Timeout: 5 * time.Minute, Run: func(t *kit.T) {
		r := t.R
		x := s.New(r)
		dir := t.SubDir("x")
		t.NoErr(x.Build(dir), "building")
		if x.RO == nil {
			t.Evals(1)
			return
		}
		for p := dir; p != "/"; p = filepath.Dir(p) {
			fi, err := os.Stat(p)
			kit.Must(err)
			kit.Must(os.Chmod(p, fi.Mode()|0o011))
		}

		same := func(sig, what, dir string, before map[string]string) {
			t.Evals(int64(len(before)))
			if d := store.DiffTrees(before, look(dir), nil); d != "" {
				t.Fatalf(sig, "%s: %s", what, d)
			}
		}
		reads := func(sig, what, dir string, as string) {
			var open []subjects.Session
			n := 1 + r.Intn(3)
			for i := 0; i < n; i++ {
				y, err := x.RO(dir)
				bad(t, sig, what, err)
				open = append(open, y)
				if as == "root" {
					t.Evals(1)
					if l := fdmon.Writable(dir); len(l) > 0 {
						t.Fatalf(sig+":writable", "%s: open for writing: %s", what, fdmon.Short(l))
					}
				}
			}
			for i := 0; i < 3; i++ {
				bad(t, sig, what, open[r.Intn(n)].Read(t, r, 30+r.Intn(60)))
				t.Evals(1)
				t.Count("reads_"+as, 1)
			}
			if as == "root" {
				t.Evals(1)
				if l := fdmon.Writable(dir); len(l) > 0 {
					t.Fatalf(sig+":writable", "%s, after reading: open for writing: %s", what, fdmon.Short(l))
				}
			}
			r.Shuffle(n, func(i, j int) { open[i], open[j] = open[j], open[i] })
			for _, y := range open {
				if y.Close != nil {
					bad(t, sig, what+": Close", y.Close())
				}
			}
			t.Count("read_sessions_"+as, int64(n))
		}

		rounds := 2
		if t.Thorough() {
			rounds = 4
		}
		for n := 0; n < rounds; n++ {
			what := fmt.Sprintf("%s (round %d)", s.Name, n)

			// reading changes nothing
			settle(dir)
			before := look(dir)
			t.Count("files", int64(len(before)))
			reads("read", what+" opened read only", dir, "root")
			same("read:changed", what+" opened read only, read, closed", dir, before)

			// nor in a place where nothing can be changed
			d2 := t.SubDir(fmt.Sprintf("ro%d", n))
			kit.Must(store.CopyDir(dir, d2))
			kit.Must(os.Chmod(filepath.Dir(d2), 0o711))
			modes(d2, 0o444, 0o555)
			settle(d2)
			before = look(d2)
			unprivileged(func() {
				if os.WriteFile(filepath.Join(d2, "probe"), nil, 0o644) == nil {
					panic("an account without privileges can write here")
				}
				reads("unprivileged", what+", a copy nobody may change, opened read only by an account without privileges", d2, "unprivileged")
			})
			same("unprivileged:changed", what+", a copy read without privileges", d2, before)
			modes(d2, 0o644, 0o755)

			// a folder that is moved keeps what it holds
			d3 := filepath.Join(t.SubDir(fmt.Sprintf("mv%d", n)), "elsewhere", "deeper")
			kit.Must(os.MkdirAll(filepath.Dir(d3), 0o755))
			kit.Must(os.Rename(d2, d3))
			before = look(d3)
			reads("moved", what+", copied and moved, opened read only", d3, "root")
			same("moved:changed", what+", moved and read", d3, before)
			t.Count("moved", 1)

			// opening for writing and closing changes no content
			if x.RW != nil {
				tree := store.Tree(d3)
				y, err := x.RW(d3)
				bad(t, "idle", what+", moved, opened for writing", err)
				bad(t, "idle", what+" opened for writing", y.Read(t, r, 20))
				if y.Sync != nil && (y.Close == nil || r.Intn(2) == 0) {
					bad(t, "idle", what+" Sync", y.Sync())
				}
				if y.Close != nil {
					bad(t, "idle", what+" Close", y.Close())
				}
				t.Evals(1)
				if d := store.DiffTrees(tree, store.Tree(d3), nil); d != "" {
					t.Fatalf("idle:changed", "%s opened for writing, read and closed: %s", what, d)
				}
				t.Count("idle_write_sessions", 1)
			}
			// nor is a file that is not there made by opening without it
			if n == 0 {
				var files []string
				kit.Must(filepath.WalkDir(d3, func(p string, d fs.DirEntry, err error) error {
					if err == nil && d.Type().IsRegular() {
						files = append(files, p)
					}
					return err
				}))
				r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
				aside := filepath.Join(filepath.Dir(d3), "aside")
				for _, f := range files[:min(len(files), 14)] {
					kit.Must(os.Rename(f, aside))
					settle(d3)
					before = look(d3)
					var y subjects.Session
					var err error
					p := kit.Panics(func() { y, err = x.RO(d3) })
					if p == "" && err == nil && y.Close != nil {
						_ = kit.Panics(func() { err = y.Close() })
					}
					same("missing:changed", fmt.Sprintf("%s, opened read only without %s (%v%s)", what, filepath.Base(f), err, p), d3, before)
					t.Count("opened_without_a_file", 1)
					kit.Must(os.Rename(aside, f))
				}
			}
			kit.Must(os.RemoveAll(filepath.Dir(filepath.Dir(d3))))
			t.Distinct(s.Name, k, n)

			// and it still grows
			if x.RW == nil {
				continue
			}
			y, err := x.RW(dir)
			bad(t, "grow", what+" opened for writing", err)
			if y.Append != nil {
				bad(t, "grow", what+" appended to", y.Append(r, 1+r.Intn(12)))
				t.Count("appends", 1)
			}
			if y.Close != nil {
				bad(t, "grow", what+" Close", y.Close())
			} else {
				bad(t, "grow", what+" Sync", y.Sync())
			}
		}
		runtime.GC()
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID: "C29", Level: "exercised", MinEvals: 5000, CaseTimeout: 5 * time.Minute,
		Rule:        "everything that can be opened read only is built and grown, then read through read-only sessions: in place with names, bytes, modes and modification times compared and the descriptors and mappings of the process searched for writable ones; as an account without privileges in a copy nobody may change; and moved elsewhere. What is read is compared with what was written. Distinct: kinds and draws",
		Assumptions: []string{"access times are not judged", "opening for writing may touch times, not contents"},
		Cases: func(tier string, seed int64) []kit.Case {
			n := 3
			if tier == "thorough" {
				n = 40
			}
			var cs []kit.Case
			for k := 0; k < n; k++ {
				for _, s := range subjects.All() {
					if s.Name == "deep-cake" && k > 0 && tier != "thorough" {
						continue
					}
					cs = append(cs, subject(s, k))
				}
			}
			return cs
		},
	})
}
