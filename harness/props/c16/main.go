// C16: the file wrappers are indistinguishable from a plain random access file.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/memfile"
	"verifharness/kit"
)

type file interface {
	ReadAt([]byte, int64) (int, error)
	WriteAt([]byte, int64) (int, error)
	Close() error
	Sync() error
}

func checkRead(t *kit.T, what string, f file, model []byte, off, n int) {
	p := bytes.Repeat([]byte{0xA5}, n)
	got, err := f.ReadAt(p, int64(off))
	t.Evals(1)
	want := 0
	if off < len(model) {
		want = len(model) - off
		if want > n {
			want = n
		}
	}
	if got != want {
		t.Fatalf("read-count", "%s: ReadAt(%d bytes, offset %d) of a %d byte file returned n=%d want %d (err %v)", what, n, off, len(model), got, want, err)
	}
	if want < n && err == nil {
		t.Fatalf("short-read-no-error", "%s: short ReadAt(%d bytes, offset %d) of a %d byte file gave no error", what, n, off, len(model))
	}
	if want == n && n > 0 && err != nil {
		t.Fatalf("read-error", "%s: ReadAt(%d bytes, offset %d) of a %d byte file: %v", what, n, off, len(model), err)
	}
	if off < len(model) && !bytes.Equal(p[:want], model[off:off+want]) {
		t.Fatalf("read-data", "%s: ReadAt(%d bytes, offset %d) of a %d byte file returned wrong data at byte %d", what, n, off, len(model), diffAt(p[:want], model[off:off+want]))
	}
}

// outside: like the plain file, no wrapper gives or takes anything before the start, and reading beyond the end is an error.
func outside(t *kit.T, what string, f file, size int) {
	p := make([]byte, 3)
	for _, off := range []int64{-1, -3, -1 << 40, int64(size), int64(size) + 1, int64(size) + 1<<40} {
		var n int
		var err error
		t.Evals(1)
		if e := kit.Panics(func() { n, err = f.ReadAt(p, off) }); e != "" {
			t.Fatalf("outside-panic", "%s: ReadAt(3 bytes, offset %d) of a %d byte file panics: %s", what, off, size, e)
		}
		if err == nil || n > 0 {
			t.Fatalf("outside-read", "%s: ReadAt(3 bytes, offset %d) of a %d byte file gives %d bytes, error %v", what, off, size, n, err)
		}
	}
	var err error
	if e := kit.Panics(func() { _, err = f.WriteAt(p, -2) }); e != "" {
		t.Fatalf("outside-panic", "%s: WriteAt(3 bytes, offset -2) panics: %s", what, e)
	}
	if err == nil {
		t.Fatalf("outside-write", "%s: WriteAt(3 bytes, offset -2) gives no error", what)
	}
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func appendCase(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("appendoptimised/%d", k), Run: func(t *kit.T) {
		r := t.R
		fn := filepath.Join(t.Dir(), "f")
		model := make([]byte, r.Intn(3)*r.Intn(5000))
		r.Read(model)
		kit.Must(os.WriteFile(fn, model, 0644))
		trace := ""
		for s := 0; s < 1+r.Intn(4); s++ {
			f, err := os.OpenFile(fn, os.O_RDWR, 0)
			kit.Must(err)
			af, err := memfile.NewAppendOptimizedFile(f)
			t.NoErr(err, "NewAppendOptimizedFile")
			szr, _ := af.(interface{ Size() int64 })
			var marks []int // where recent writes started and ended
			mark := func() int {
				if len(marks) > 0 && r.Intn(2) == 0 {
					return min(marks[len(marks)-1-r.Intn(min(6, len(marks)))], len(model))
				}
				return r.Intn(len(model))
			}
			appendBias := r.Intn(12)
			for o := 0; o < 20+r.Intn(500); o++ {
				x := r.Intn(13)
				if x < appendBias {
					x = 0
				}
				n := r.Intn(40)
				switch r.Intn(12) {
				case 0:
					n = 4000 + r.Intn(200) // around the buffer size
				case 1:
					n = 5000 + r.Intn(9000) // bigger than the buffer
				case 2:
					n = 0
				}
				data := make([]byte, n)
				r.Read(data)
				t.Evals(1)
				put := func(off int) {
					got, err := af.WriteAt(data, int64(off))
					if err != nil || got != n {
						t.Fatalf("write", "WriteAt(%d bytes, %d) of a %d byte file = %d, %v", n, off, len(model), got, err)
					}
					if n == 0 {
						return
					}
					marks = append(marks, off, off+n)
					for len(model) < off+n {
						model = append(model, make([]byte, off+n-len(model))...)
					}
					copy(model[off:], data)
				}
				switch {
				case x <= 3:
					put(len(model))
					trace += "a"
				case x == 4:
					if len(model) > 0 {
						put(mark()) // may straddle the end
						trace += "o"
					}
				case x == 5:
					back := r.Intn(30)
					if back < len(model) {
						put(len(model) - back)
						trace += "t"
					}
				case x == 6:
					put(len(model) + 1 + r.Intn(3000))
					trace += "g"
				case x == 7:
					t.NoErr(af.Sync(), "Sync")
					disk, err := os.ReadFile(fn)
					kit.Must(err)
					if !bytes.Equal(disk, model) {
						t.Fatalf("sync", "after Sync the file on disk (%d bytes) is not what was written (%d bytes)", len(disk), len(model))
					}
					trace += "s"
				case x == 8:
					all, err := af.ReadAll()
					t.NoErr(err, "ReadAll")
					if !bytes.Equal(all, model) {
						t.Fatalf("readall", "ReadAll gave %d bytes that are not the %d bytes written", len(all), len(model))
					}
					trace += "R"
				case x == 9:
					checkRead(t, "append-optimised", af, model, len(model)+r.Intn(3), 1+r.Intn(5))
					if r.Intn(5) == 0 {
						outside(t, "append-optimised", af, len(model))
					}
					trace += "e"
				default:
					off := 0
					if len(model) > 0 {
						off = min(mark(), len(model)-1)
					}
					checkRead(t, "append-optimised", af, model, off, 1+r.Intn(300))
					trace += "r"
				}
				if szr != nil && szr.Size() != int64(len(model)) {
					t.Fatalf("size", "Size()=%d after writes making %d bytes", szr.Size(), len(model))
				}
			}
			t.NoErr(af.Close(), "Close")
			disk, err := os.ReadFile(fn)
			kit.Must(err)
			if !bytes.Equal(disk, model) {
				t.Fatalf("close", "after Close the file on disk (%d bytes) differs from what was written (%d bytes) at byte %d", len(disk), len(model), diffAt(disk, model))
			}
			t.Distinct("append", trace)
		}
		t.Sample("append-optimised file, %d bytes, ops %.80s", len(model), trace)
	}}
}

func plainCase(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("plain/%d", k), Run: func(t *kit.T) {
		r := t.R
		fn := filepath.Join(t.Dir(), "f")
		model := make([]byte, r.Intn(3)*r.Intn(5000))
		r.Read(model)
		kit.Must(os.WriteFile(fn, model, 0644))
		trace := ""
		f, err := os.OpenFile(fn, os.O_RDWR, 0)
		kit.Must(err)
		fws := memfile.NewFileWithSize(f)
		for o := 0; o < 200; o++ {
			t.Evals(1)
			switch r.Intn(4) {
			case 0:
				n := 1 + r.Intn(50)
				off := r.Intn(len(model) + 20)
				data := make([]byte, n)
				r.Read(data)
				got, err := fws.WriteAt(data, int64(off))
				if err != nil || got != n {
					t.Fatalf("write", "WriteAt = %d, %v", got, err)
				}
				for len(model) < off+n {
					model = append(model, make([]byte, off+n-len(model))...)
				}
				copy(model[off:], data)
				trace += fmt.Sprint("w", off, ",")
			case 1:
				all, err := fws.ReadAll()
				t.NoErr(err, "ReadAll")
				if !bytes.Equal(all, model) {
					t.Fatalf("readall", "FileWithSize.ReadAll gave %d bytes, file has %d", len(all), len(model))
				}
			default:
				checkRead(t, "FileWithSize", fws, model, r.Intn(len(model)+3), 1+r.Intn(100))
			}
			if fws.Size() != int64(len(model)) {
				t.Fatalf("size", "FileWithSize.Size()=%d want %d", fws.Size(), len(model))
			}
		}
		outside(t, "FileWithSize", fws, len(model))
		t.NoErr(fws.Sync(), "Sync")
		t.NoErr(fws.Close(), "Close")
		t.Distinct("plain", trace)

		// Memory mapped, read only
		f, err = os.Open(fn)
		kit.Must(err)
		m, err := memfile.NewMmapReadOnly(f)
		t.NoErr(err, "NewMmapReadOnly")
		if m.Size() != int64(len(model)) {
			t.Fatalf("size", "mmap Size()=%d want %d", m.Size(), len(model))
		}
		for o := 0; o < 100; o++ {
			checkRead(t, "mmap", m, model, r.Intn(len(model)+3), 1+r.Intn(100))
		}
		all, err := m.ReadAll()
		t.NoErr(err, "mmap ReadAll")
		if !bytes.Equal(all, model) {
			t.Fatalf("readall", "mmap ReadAll differs")
		}
		if _, err := m.WriteAt([]byte{1}, 0); err == nil {
			t.Fatalf("mmap-write", "writing to a read only mapping succeeded")
		}
		outside(t, "mmap", m, len(model))
		t.NoErr(m.Close(), "mmap Close")

		// Fixed size memory copy: visible on disk after Close
		g, err := memfile.NewFixedSizeMemFile(fn, 0644)
		t.NoErr(err, "NewFixedSizeMemFile")
		for o := 0; o < 100 && len(model) > 0; o++ {
			off := r.Intn(len(model))
			n := r.Intn(len(model) - off + 1)
			if n > 64 {
				n = 64
			}
			if r.Intn(2) == 0 {
				data := make([]byte, n)
				r.Read(data)
				got, err := g.WriteAt(data, int64(off))
				if err != nil || got != n {
					t.Fatalf("write", "fixed size WriteAt = %d, %v", got, err)
				}
				copy(model[off:], data)
			} else if n > 0 {
				checkRead(t, "fixed size", g, model, off, n)
			}
		}
		outside(t, "fixed size", g, len(model))
		if len(model) > 0 { // a read across the end gives what there is, and an error
			checkRead(t, "fixed size", g, model, r.Intn(len(model)), len(model)+3)
		}
		t.NoErr(g.Close(), "fixed size Close")
		disk, err := os.ReadFile(fn)
		kit.Must(err)
		if !bytes.Equal(disk, model) {
			t.Fatalf("close", "fixed size file on disk differs after Close")
		}
		t.Distinct("fixed", len(model), k)
		t.Sample("plain, mapped and fixed size files of %d bytes", len(model))
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C16",
		Rule:     "A case is a seeded random history of appends, overwrites, straddling and sparse writes, reads (in, across and beyond the end), whole-file reads, syncs and reopenings on a real file, mirrored by an in-memory byte slice; distinct_nontrivial counts distinct operation traces.",
		MinEvals: 20000,
		Cases: func(tier string, seed int64) []kit.Case {
			reps := 4000
			if tier == "thorough" {
				reps = 60000
			}
			var cs []kit.Case
			for k := 0; k < reps; k++ {
				cs = append(cs, appendCase(k))
				if k%2 == 0 {
					cs = append(cs, plainCase(k))
				}
			}
			return cs
		},
	})
}
