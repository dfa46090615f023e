// C18: numbered folders place every number group in its own file.
package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/KitchenMishap/pudding-shed/numberedfolders"
	"verifharness/kit"
)

func pow10(n int) int64 {
	p := int64(1)
	for ; n > 0; n-- {
		p *= 10
	}
	return p
}

type place struct {
	folders, file string
	num           int64
}

func one(fd, fo, rep int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("folders/file%d/folder%d/%d", fd, fo, rep), Run: func(t *kit.T) {
		nf := numberedfolders.NewNumberedFolders(fd, fo)
		group := pow10(fd)
		owner := map[string]int64{} // path -> group
		placeOf := map[int64]place{}
		entries := map[string]map[string]bool{}
		dirs := map[string]bool{}
		files := map[string]bool{}
		addEntry := func(dir, e string) {
			if entries[dir] == nil {
				entries[dir] = map[string]bool{}
			}
			entries[dir][e] = true
		}
		look := func(n int64) {
			folders, file, num := nf.NumberToFoldersAndFile(n)
			t.Evals(1)
			g := n / group
			p := place{folders, file, num}
			if q, ok := placeOf[g]; ok {
				if p != q {
					t.Fatalf("group-split", "digits %d/%d: number %d goes to %v, another number of its group to %v", fd, fo, n, p, q)
				}
				return
			}
			placeOf[g] = p
			if num != g*group {
				t.Fatalf("file-number", "digits %d/%d: number %d is in file number %d, its group starts at %d", fd, fo, n, num, g*group)
			}
			if file == "" || strings.ContainsAny(file, "/\\.") || strings.HasPrefix(folders, "/") || strings.HasSuffix(folders, "/") || strings.Contains(folders, "..") || strings.Contains(folders, "//") {
				t.Fatalf("path-form", "digits %d/%d: number %d maps to folder %q file %q", fd, fo, n, folders, file)
			}
			path := filepath.Join(folders, file)
			if o, ok := owner[path]; ok {
				t.Fatalf("collision", "digits %d/%d: numbers %d and %d share the file %q", fd, fo, n, o*group, path)
			}
			owner[path] = g
			files[path] = true
			dir := ""
			if folders != "" {
				for _, c := range strings.Split(folders, "/") {
					addEntry(dir, c+"/")
					dir = filepath.Join(dir, c)
					dirs[dir] = true
				}
			}
			addEntry(dir, file)
		}
		lim := pow10(fd) * pow10(fo) * 12
		if lim > 60000 {
			lim = 60000
		}
		for n := int64(0); n < lim; n++ {
			look(n)
		}
		for e := 1; e <= 18; e++ {
			for d := int64(-3); d < 3; d++ {
				look(pow10(e) + d)
				look(pow10(e)*7 + d)
			}
		}
		for i := 0; i < 60000; i++ {
			look(t.R.Int63n(pow10(3 + t.R.Intn(16))))
		}
		// No folder but the top one outgrows what one big digit can name.  The top one also holds
		// one subfolder for each possible length of a number.
		for d, es := range entries {
			max := int(pow10(fo)) + 1
			if d == "" {
				max += 20
			}
			if len(es) > max {
				t.Fatalf("folder-full", "digits %d/%d: folder %q holds %d entries, more than %d", fd, fo, d, len(es), max)
			}
		}
		t.Count("groups", int64(len(placeOf)))
		t.Count("folders", int64(len(dirs)))
		for d := range dirs {
			t.Distinct(fd, fo, d)
		}
		p := placeOf[123456/group]
		t.Sample("digits %d/%d: 123456 -> folder %q file %q number %d; %d groups in %d folders", fd, fo, p.folders, p.file, p.num, len(placeOf), len(dirs))
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C18",
		Rule:     "For every digits-per-file and digits-per-folder setting, all numbers of an initial range plus powers of ten, their neighbours and random numbers up to 10^18 are placed; a monitor keeps the owner of every path. distinct_nontrivial counts distinct folders seen.",
		MinEvals: 500000,
		Cases: func(tier string, seed int64) []kit.Case {
			var cs []kit.Case
			reps := 2
			if tier == "thorough" {
				reps = 100
			}
			for rep := 0; rep < reps; rep++ {
				for fd := 0; fd <= 5; fd++ {
					for fo := 1; fo <= 5; fo++ {
						cs = append(cs, one(fd, fo, rep))
					}
				}
			}
			return cs
		},
	})
}
