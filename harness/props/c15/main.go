// C15: word files and hash files behave as an array of words.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/memfile"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"verifharness/kit"
)

// value makes a value that fits in ws bytes, biased to boundaries.
func value(r *rand.Rand, ws int64) int64 {
	bits := uint(ws * 8)
	max := uint64(1)<<bits - 1
	if ws == 8 {
		max = ^uint64(0)
	}
	switch r.Intn(6) {
	case 0:
		return int64(max)
	case 1:
		return 0
	case 2:
		return int64(uint64(1) << uint(r.Intn(int(bits))))
	case 3:
		return int64(max - uint64(r.Intn(3)))
	}
	return int64(r.Uint64() & max)
}

type opened struct {
	rw     wordfile.ReadWriteAtWordCounter
	ro     wordfile.ReadAtWordCounter
	shadow bool
}

func (o *opened) read(off int64) (int64, error) {
	if o.rw != nil {
		return o.rw.ReadWordAt(off)
	}
	return o.ro.ReadWordAt(off)
}

func checkAll(t *kit.T, what string, ws int64, model []int64, read func(int64) (int64, error), count func() (int64, error)) {
	n, err := count()
	t.NoErr(err, "CountWords")
	if n != int64(len(model)) {
		t.Fatalf("count", "%s (word size %d): CountWords()=%d, %d words were written", what, ws, n, len(model))
	}
	for i, want := range model {
		got, err := read(int64(i))
		t.Evals(1)
		if err != nil {
			t.Fatalf("read-error", "%s (word size %d): ReadWordAt(%d) of %d words: %v", what, ws, i, len(model), err)
		}
		if got != want {
			t.Fatalf("read-value", "%s (word size %d): word %d of %d reads %#x, last written %#x", what, ws, i, len(model), got, want)
		}
	}
}

func wordCase(ws int64, variant string, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("words/%s/ws%d/%d", variant, ws, k), Run: func(t *kit.T) {
		r := t.R
		dir := t.SubDir("d")
		shadow := variant == "shadow"
		name := "w"
		folder := filepath.Join(dir, "sub", "folder")
		mk := func(inRam bool) wordfile.WordFileCreator {
			return wordfile.NewConcreteWordFileCreator(name, folder, ws, shadow, inRam)
		}
		cr := mk(false)
		if cr.WordFileExists() {
			t.Fatalf("exists", "WordFileExists() before creation")
		}
		var model []int64
		if r.Intn(3) == 0 {
			n := int64(r.Intn(50))
			t.NoErr(cr.CreateWordFileFilledZeros(n), "CreateWordFileFilledZeros")
			model = make([]int64, n)
		} else {
			t.NoErr(cr.CreateWordFile(), "CreateWordFile")
		}
		if !cr.WordFileExists() {
			t.Fatalf("exists", "WordFileExists() false after creation")
		}
		sessions := 1 + r.Intn(5)
		trace := ""
		for s := 0; s < sessions; s++ {
			f, err := cr.OpenWordFile()
			t.NoErr(err, "OpenWordFile")
			if f.WordSize() != ws {
				t.Fatalf("wordsize", "WordSize()=%d want %d", f.WordSize(), ws)
			}
			ops := r.Intn(400)
			if r.Intn(6) == 0 {
				ops = 3000 // cross the write buffer several times
			}
			appendBias := r.Intn(10)
			for o := 0; o < ops; o++ {
				x := r.Intn(14)
				if x < appendBias {
					x = 0
				}
				t.Evals(1)
				switch {
				case x <= 2: // append
					v := value(r, ws)
					t.NoErr(f.WriteWordAt(v, int64(len(model))), "append")
					model = append(model, v)
					trace += "a"
				case x <= 5: // overwrite
					if len(model) > 0 {
						i := r.Intn(len(model))
						if r.Intn(3) == 0 {
							i = len(model) - 1
						}
						v := value(r, ws)
						t.NoErr(f.WriteWordAt(v, int64(i)), "overwrite")
						model[i] = v
						trace += "o"
					}
				case x == 6: // beyond the end
					gap := 1 + r.Intn(20)
					v := value(r, ws)
					off := len(model) + gap
					t.NoErr(f.WriteWordAt(v, int64(off)), "sparse write")
					for len(model) < off {
						model = append(model, 0)
					}
					model = append(model, v)
					trace += "g"
				case x == 7:
					t.NoErr(f.Sync(), "Sync")
					trace += "s"
				case x == 8:
					all, err := f.ReadWholeFileAsInt64s()
					t.NoErr(err, "ReadWholeFileAsInt64s")
					if len(all) != len(model) {
						t.Fatalf("readall-length", "%s ws=%d: ReadWholeFileAsInt64s gave %d words, %d written", variant, ws, len(all), len(model))
					}
					for i := range all {
						if all[i] != model[i] {
							t.Fatalf("readall-value", "%s ws=%d: ReadWholeFileAsInt64s[%d]=%#x want %#x", variant, ws, i, all[i], model[i])
						}
					}
					trace += "R"
				case x == 9: // past-the-end read must be an error, not a value
					v, err := f.ReadWordAt(int64(len(model)) + int64(r.Intn(5)))
					if err == nil {
						t.Fatalf("past-end", "%s ws=%d: reading past the end (%d words) returned %#x without error", variant, ws, len(model), v)
					}
					// nor is there anything before the start
					neg := -1 - int64(r.Intn(3))
					if p := kit.Panics(func() {
						v, err = f.ReadWordAt(neg)
						if err == nil {
							t.Fatalf("before-start", "%s ws=%d: reading word %d returned %#x without error", variant, ws, neg, v)
						}
						if r.Intn(4) == 0 {
							if err = f.WriteWordAt(1, neg); err == nil {
								t.Fatalf("before-start", "%s ws=%d: writing word %d gave no error", variant, ws, neg)
							}
						}
					}); p != "" {
						t.Fatalf("before-start-panic", "%s ws=%d: reading or writing word %d panics: %s", variant, ws, neg, p)
					}
					trace += "e"
				default:
					if len(model) > 0 {
						i := r.Intn(len(model))
						if r.Intn(4) == 0 {
							i = len(model) - 1
						}
						got, err := f.ReadWordAt(int64(i))
						t.NoErr(err, "ReadWordAt")
						if got != model[i] {
							t.Fatalf("read-value", "%s ws=%d: word %d of %d reads %#x, last written %#x", variant, ws, i, len(model), got, model[i])
						}
						trace += "r"
					}
				}
				n, err := f.CountWords()
				t.NoErr(err, "CountWords")
				if n != int64(len(model)) {
					t.Fatalf("count", "%s ws=%d: CountWords()=%d want %d", variant, ws, n, len(model))
				}
			}
			if r.Intn(3) == 0 {
				checkAll(t, variant+" before close", ws, model, f.ReadWordAt, f.CountWords)
			}
			if err := f.Close(); err != nil {
				t.Fatalf("close", "Close: %v", err)
			}
			trace += "C"
			t.Distinct(variant, ws, trace)
			// The file itself is little endian words
			raw, err := os.ReadFile(filepath.Join(folder, name+".int"))
			t.NoErr(err, "reading the file")
			if int64(len(raw)) != ws*int64(len(model)) {
				t.Fatalf("file-size", "%s ws=%d: file is %d bytes after Close, want %d", variant, ws, len(raw), ws*int64(len(model)))
			}
			for i := range model {
				v := uint64(0)
				for b := ws - 1; b >= 0; b-- {
					v = v<<8 | uint64(raw[int64(i)*ws+b])
				}
				if int64(v) != model[i] {
					t.Fatalf("file-bytes", "%s ws=%d: file word %d is %#x, want %#x", variant, ws, i, v, model[i])
				}
			}
			// Read only, both ways
			for _, inRam := range []bool{false, true} {
				ro, err := mk(inRam).OpenWordFileReadOnly()
				if err != nil {
					t.Fatalf(fmt.Sprintf("open-readonly-ram=%v", inRam), "%s ws=%d words=%d inRam=%v: OpenWordFileReadOnly: %v", variant, ws, len(model), inRam, err)
				}
				if ro.WordSize() != ws {
					t.Fatalf("wordsize", "read-only WordSize()=%d want %d", ro.WordSize(), ws)
				}
				checkAll(t, fmt.Sprintf("%s read-only inRam=%v", variant, inRam), ws, model, ro.ReadWordAt, ro.CountWords)
				if v, err := ro.ReadWordAt(int64(len(model))); err == nil {
					t.Fatalf("past-end", "%s ws=%d inRam=%v: reading past the end (%d words) returned %#x without error", variant, ws, inRam, len(model), v)
				}
				if p := kit.Panics(func() {
					if v, err := ro.ReadWordAt(-1); err == nil {
						t.Fatalf("before-start", "%s ws=%d inRam=%v: reading word -1 returned %#x without error", variant, ws, inRam, v)
					}
				}); p != "" {
					t.Fatalf("before-start-panic", "%s ws=%d inRam=%v: reading word -1 panics: %s", variant, ws, inRam, p)
				}
				t.NoErr(ro.Close(), "read-only Close")
			}
		}
		t.Count("sessions", int64(sessions))
		t.CountMax("words", int64(len(model)))
		t.Sample("word size %d, %s: %d sessions, %d words, ops %.60s", ws, variant, sessions, len(model), trace)
		// A torn file is refused
		if ws > 1 {
			fn := filepath.Join(folder, name+".int")
			raw, _ := os.ReadFile(fn)
			kit.Must(os.WriteFile(fn, append(raw, make([]byte, 1+r.Intn(int(ws-1)))...), 0644))
			if f, err := cr.OpenWordFile(); err == nil {
				f.Close()
				t.Fatalf("torn", "a file of %d bytes opens as a file of %d-byte words", len(raw)+1, ws)
			}
			if f, err := mk(true).OpenWordFileReadOnly(); err == nil {
				f.Close()
				t.Fatalf("torn", "a torn file opens read-only as a file of %d-byte words", ws)
			}
		}
		// Create truncates
		t.NoErr(cr.CreateWordFile(), "CreateWordFile again")
		f, err := cr.OpenWordFile()
		t.NoErr(err, "OpenWordFile")
		n, _ := f.CountWords()
		if n != 0 {
			t.Fatalf("create-truncates", "CreateWordFile left %d words", n)
		}
		t.NoErr(f.Close(), "Close")
	}}
}

func hashFileCase(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("hashfile/%d", k), Run: func(t *kit.T) {
		r := t.R
		fn := filepath.Join(t.Dir(), "h.hsh")
		f, err := os.Create(fn)
		kit.Must(err)
		kit.Must(f.Close())
		var model [][32]byte
		trace := ""
		for s := 0; s < 1+r.Intn(4); s++ {
			f, err := os.OpenFile(fn, os.O_RDWR, 0)
			kit.Must(err)
			af, err := memfile.NewAppendOptimizedFile(f)
			t.NoErr(err, "NewAppendOptimizedFile")
			hf := wordfile.NewHashFile(af, int64(len(model)))
			for o := 0; o < r.Intn(600); o++ {
				t.Evals(1)
				var h [32]byte
				r.Read(h[:])
				switch x := r.Intn(8); {
				case x <= 3:
					i, err := hf.AppendHash(h)
					t.NoErr(err, "AppendHash")
					if i != int64(len(model)) {
						t.Fatalf("append-index", "AppendHash returned %d, want %d", i, len(model))
					}
					model = append(model, h)
					trace += "a"
				case x == 4 && len(model) > 0:
					i := r.Intn(len(model))
					t.NoErr(hf.WriteHashAt(h, int64(i)), "WriteHashAt")
					model[i] = h
					trace += "o"
				case x == 5 && r.Intn(4) == 0:
					t.NoErr(hf.Sync(), "Sync")
					trace += "s"
				case x == 5 && r.Intn(4) == 0: // at the end or beyond it, leaving a gap of zeroes
					i := len(model) + r.Intn(1+r.Intn(40))
					t.NoErr(hf.WriteHashAt(h, int64(i)), "WriteHashAt")
					for len(model) < i {
						model = append(model, [32]byte{})
					}
					model = append(model, h)
					trace += "g"
					t.Count("hash_gaps", 1)
				case x == 6:
					if _, err := hf.ReadHashAt(int64(len(model))); err == nil {
						t.Fatalf("past-end", "ReadHashAt past the end gave no error")
					}
				case len(model) > 0:
					i := r.Intn(len(model))
					g, err := hf.ReadHashAt(int64(i))
					t.NoErr(err, "ReadHashAt")
					if g != model[i] {
						t.Fatalf("hash-value", "hash %d of %d reads %x want %x", i, len(model), g, model[i])
					}
					trace += "r"
				}
				if hf.CountHashes() != int64(len(model)) {
					t.Fatalf("count", "CountHashes()=%d want %d", hf.CountHashes(), len(model))
				}
			}
			// values handed out must not be views of a shared buffer
			if len(model) >= 2 {
				a, e1 := hf.ReadHashAt(0)
				_, e2 := hf.ReadHashAt(1)
				if e1 != nil || e2 != nil || a != model[0] {
					t.Fatalf("alias", "the hash handed out first changed when a second was read")
				}
			}
			t.NoErr(hf.Close(), "Close")
			raw, _ := os.ReadFile(fn)
			if len(raw) != 32*len(model) {
				t.Fatalf("file-size", "hash file is %d bytes for %d hashes", len(raw), len(model))
			}
			for i := range model {
				if string(raw[32*i:32*i+32]) != string(model[i][:]) {
					t.Fatalf("file-bytes", "hash file record %d differs", i)
				}
			}
			t.Distinct("hf", trace)
		}
		t.Sample("hash file: %d hashes, ops %.60s", len(model), trace)
	}}
}

// A value that does not fit (such as the -1 "unknown" marker) must not disturb any other word.
func overflowCase(ws int64, variant string) kit.Case {
	return kit.Case{Name: fmt.Sprintf("overflow/%s/ws%d", variant, ws), Run: func(t *kit.T) {
		cr := wordfile.NewConcreteWordFileCreator("w", t.Dir(), ws, variant == "shadow", false)
		t.NoErr(cr.CreateWordFile(), "CreateWordFile")
		f, err := cr.OpenWordFile()
		t.NoErr(err, "OpenWordFile")
		n := 200
		bad := map[int]bool{}
		model := make([]int64, n)
		for i := 0; i < n; i++ {
			v := value(t.R, ws)
			if i%7 == 3 {
				bad[i] = true
				v = -1
				if i%2 == 0 {
					v = int64(uint64(1)<<uint(ws*8)) + 5
				}
			}
			model[i] = v
			t.NoErr(f.WriteWordAt(v, int64(i)), "WriteWordAt")
			j := t.R.Intn(i + 1)
			if !bad[j] {
				got, err := f.ReadWordAt(int64(j))
				t.NoErr(err, "ReadWordAt")
				t.Evals(1)
				if got != model[j] {
					t.Fatalf("disturbed", "%s ws=%d: word %d reads %#x, written %#x, after a value that does not fit was written to another word", variant, ws, j, got, model[j])
				}
			}
		}
		t.Distinct("overflow", variant, ws)
		t.NoErr(f.Close(), "Close")
		ro, err := cr.OpenWordFileReadOnly()
		t.NoErr(err, "OpenWordFileReadOnly")
		for i := range model {
			if !bad[i] {
				got, err := ro.ReadWordAt(int64(i))
				t.NoErr(err, "ReadWordAt")
				t.Evals(1)
				if got != model[i] {
					t.Fatalf("disturbed", "%s ws=%d: after reopening word %d reads %#x, written %#x", variant, ws, i, got, model[i])
				}
			}
		}
		t.NoErr(ro.Close(), "Close")
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C15",
		Rule:     "A case is a seeded random history of word appends, overwrites, writes beyond the end, reads, whole-file reads, syncs and reopenings on a real file, mirrored by an in-memory array; distinct_nontrivial counts distinct (variant, word size, operation trace) prefixes ending in a close.",
		MinEvals: 50000,
		Cases: func(tier string, seed int64) []kit.Case {
			reps := 120
			if tier == "thorough" {
				reps = 1500
			}
			var cs []kit.Case
			for ws := int64(1); ws <= 8; ws++ {
				for _, v := range []string{"plain", "shadow"} {
					for k := 0; k < reps; k++ {
						cs = append(cs, wordCase(ws, v, k))
					}
					if ws < 8 {
						cs = append(cs, overflowCase(ws, v))
					}
				}
			}
			for k := 0; k < reps*4; k++ {
				cs = append(cs, hashFileCase(k))
			}
			return cs
		},
	})
}
