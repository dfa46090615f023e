// C17: integer-array maps hand back exactly the lists that were appended.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"unsafe"

	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	"verifharness/kit"
)

func elem(r *rand.Rand, ebs int64) int64 {
	bits := uint(ebs * 8)
	if bits > 63 {
		bits = 63
	}
	switch r.Intn(5) {
	case 0:
		return int64(uint64(1)<<bits - 1)
	case 1:
		return 0
	case 2:
		return 1 << uint(r.Intn(int(bits)))
	}
	return int64(r.Uint64() & (uint64(1)<<bits - 1))
}

func eq(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// setLimit lowers the cache limit of a cached store so that eviction is reached.
func setLimit(store any, limit int64) bool {
	v := reflect.ValueOf(store).Elem().FieldByName("cacheElementCountLimit")
	if !v.IsValid() || v.Kind() != reflect.Int64 {
		return false
	}
	*(*int64)(unsafe.Pointer(v.UnsafeAddr())) = limit
	return true
}

type reader interface {
	GetArray(int64) ([]int64, error)
}

func check(t *kit.T, what string, m reader, model map[int64][]int64, key int64) {
	got, err := m.GetArray(key)
	t.Evals(1)
	want := model[key]
	if len(want) == 0 {
		if err != nil {
			t.Fatalf("get-empty-error", "%s: GetArray(%d) (nothing appended): %v", what, key, err)
		}
		if len(got) != 0 {
			t.Fatalf("phantom", "%s: GetArray(%d) returned %d values, nothing was appended there", what, key, len(got))
		}
		return
	}
	if err != nil {
		t.Fatalf("get-error", "%s: GetArray(%d) (%d values appended): %v", what, key, len(want), err)
	}
	if !eq(got, want) {
		t.Fatalf("get-value", "%s: GetArray(%d) returned %d values %.100s, appended %d values %.100s", what, key, len(got), fmt.Sprint(got), len(want), fmt.Sprint(want))
	}
}

func mapCase(cached bool, order string, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("map/cached=%v/%s/%d", cached, order, k), Run: func(t *kit.T) {
		r := t.R
		df := int64(1 + r.Intn(3))
		dfo := int64(1 + r.Intn(3))
		ebs := int64(1 + r.Intn(8))
		cr := intarrayarray.NewConcreteMapStoreCreator("m", filepath.Join(t.Dir(), "a"), df, dfo, ebs, cached)
		t.NoErr(cr.CreateMap(), "CreateMap")
		model := map[int64][]int64{}
		var keys []int64
		maxKey := int64(1)
		for i := 0; i < int(df)+r.Intn(4); i++ {
			maxKey *= 10
		}
		if r.Intn(4) == 0 {
			maxKey *= 100
		}
		next := int64(0)
		pick := func() int64 {
			switch order {
			case "ascending":
				next += int64(r.Intn(int(maxKey/200) + 2))
				return next
			case "descending":
				if next == 0 {
					next = maxKey
				}
				next -= int64(r.Intn(int(maxKey/200) + 2))
				if next <= 0 {
					next = maxKey - 1
				}
				return next
			case "address": // mostly new keys at the end, often an older one
				if r.Intn(3) > 0 || len(keys) == 0 {
					next += int64(r.Intn(int(maxKey/100) + 2))
					return next
				}
				return r.Int63n(next + 1)
			case "pingpong":
				if r.Intn(2) == 0 {
					return maxKey - 1 - r.Int63n(3)
				}
				return r.Int63n(maxKey)
			}
			return r.Int63n(maxKey)
		}
		what := fmt.Sprintf("cached=%v order=%s digitsPerFile=%d digitsPerFolder=%d elementBytes=%d", cached, order, df, dfo, ebs)
		trims := false
		sessions := 1 + r.Intn(3)
		trace := ""
		for s := 0; s < sessions; s++ {
			m, err := cr.OpenMap()
			t.NoErr(err, "OpenMap")
			if cached && r.Intn(2) == 0 {
				if setLimit(m, int64(20+r.Intn(200))) {
					trims = true
				}
			}
			for o := 0; o < 30+r.Intn(200); o++ {
				t.Evals(1)
				switch r.Intn(20) {
				case 0:
					t.NoErr(m.(interface{ Sync() error }).Sync(), "Sync")
					trace += "s"
				case 1:
					t.NoErr(m.(interface{ FlushFile() error }).FlushFile(), "FlushFile")
					trace += "f"
				case 2:
					key := r.Int63n(maxKey)
					if len(keys) > 0 && r.Intn(4) > 0 {
						key = keys[r.Intn(len(keys))]
					}
					check(t, what, m.(reader), model, key)
					trace += "g"
				default:
					key := pick()
					n := 1
					switch r.Intn(12) {
					case 0:
						n = 300 // the count no longer fits one byte
					case 1:
						n = 253 - len(model[key])
					}
					for i := 0; i < n; i++ {
						v := elem(r, ebs)
						t.NoErr(m.AppendToArray(key, v), "AppendToArray")
						if len(model[key]) == 0 {
							keys = append(keys, key)
						}
						model[key] = append(model[key], v)
					}
					trace += "a"
				}
			}
			if err := m.(interface{ FlushFile() error }).FlushFile(); err != nil {
				t.Fatalf("flush", "%s: FlushFile: %v", what, err)
			}
			ro, err := cr.OpenMapReadOnly()
			t.NoErr(err, "OpenMapReadOnly")
			for _, key := range keys {
				check(t, what+" (reopened)", ro, model, key)
			}
			for i := 0; i < 20; i++ {
				check(t, what+" (reopened)", ro, model, r.Int63n(maxKey))
			}
			t.Distinct(cached, order, df, dfo, ebs, trims, trace)
		}
		if trims {
			t.Count("cases_with_cache_eviction_limit", 1)
		}
		t.Count("keys", int64(len(keys)))
		t.Sample("%s: %d keys, %d sessions, eviction=%v", what, len(keys), sessions, trims)
		// CreateMap empties
		t.NoErr(cr.CreateMap(), "CreateMap again")
		ro, err := cr.OpenMapReadOnly()
		t.NoErr(err, "OpenMapReadOnly")
		for i := 0; i < 5 && i < len(keys); i++ {
			check(t, what+" (recreated)", ro, map[int64][]int64{}, keys[i])
		}
	}}
}

func arrayCase(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("array/%d", k), Run: func(t *kit.T) {
		r := t.R
		ebs := int64(1 + r.Intn(8))
		n := int64(1 + r.Intn(50))
		a := intarrayarray.NewIntArrayArray(n, ebs)
		model := map[int64][]int64{}
		for i := 0; i < r.Intn(100); i++ {
			key := r.Int63n(n)
			m := 1 + r.Intn(3)
			switch r.Intn(20) {
			case 0:
				m = 252 + r.Intn(4)
			case 1:
				if k%5 == 0 {
					m = 65534 + r.Intn(4)
				}
			}
			for j := 0; j < m; j++ {
				v := elem(r, ebs)
				a.AppendToArray(key, v)
				model[key] = append(model[key], v)
			}
		}
		fn := filepath.Join(t.Dir(), "x")
		t.NoErr(a.SaveFile(fn), "SaveFile")
		b := intarrayarray.NewIntArrayArray(n, ebs)
		b.AppendToArray(0, 1) // loading replaces what was there
		t.NoErr(b.LoadFile(fn), "LoadFile")
		for key := int64(0); key < n; key++ {
			t.Evals(2)
			if !eq(a.GetArray(key), model[key]) || !eq(b.GetArray(key), model[key]) {
				t.Fatalf("array-roundtrip", "elementBytes=%d: list %d of %d values does not survive save and load", ebs, key, len(model[key]))
			}
		}
		t.Distinct("array", ebs, n, len(model))
		// A second save gives the same bytes
		fn2 := filepath.Join(t.Dir(), "y")
		t.NoErr(b.SaveFile(fn2), "SaveFile")
		x, _ := os.ReadFile(fn)
		y, _ := os.ReadFile(fn2)
		if string(x) != string(y) {
			t.Fatalf("array-resave", "saving the loaded arrays gives different bytes")
		}
	}}
}

func varintCase() kit.Case {
	return kit.Case{Name: "varint", Run: func(t *kit.T) {
		try := func(v int64) {
			a := intarrayarray.VarInt{}
			a.FromInt64(v)
			by := append([]byte{}, a.ToBytes()...)
			b := intarrayarray.VarInt{}
			n := b.FromBytes(append(append([]byte{}, by...), 0xEE, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF))
			t.Evals(1)
			if n != len(by) || b.ToInt64() != v {
				t.Fatalf("varint", "variable length integer %d encodes to %x, which decodes to %d using %d bytes", v, by, b.ToInt64(), n)
			}
			want := 9
			switch {
			case v < 0xFD:
				want = 1
			case v <= 0xFFFF:
				want = 3
			case v <= 0xFFFFFFFF:
				want = 5
			}
			if len(by) != want {
				t.Fatalf("varint-length", "variable length integer %d takes %d bytes, want %d", v, len(by), want)
			}
		}
		for v := int64(0); v < 70000; v++ {
			try(v)
		}
		for s := uint(16); s < 63; s++ {
			for d := int64(-3); d <= 3; d++ {
				try(int64(1)<<s + d)
			}
		}
		for i := 0; i < 5000; i++ {
			try(t.R.Int63() >> uint(t.R.Intn(63)))
		}
		t.Distinct("varint")
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:          "C17",
		Rule:        "A case is a seeded random history of appends (ascending, descending, address-like, ping-pong and random key orders), flushes, reads and reopenings of a real on-disk map, mirrored by an in-memory map; distinct_nontrivial counts distinct (configuration, operation trace) pairs at the end of each session.",
		Assumptions: []string{"the 8 GB cache limit of the cached map is lowered through reflection so that eviction is reached (skipped when the field is not there)"},
		MinEvals:    20000,
		Cases: func(tier string, seed int64) []kit.Case {
			reps := 200
			if tier == "thorough" {
				reps = 8000
			}
			cs := []kit.Case{varintCase()}
			for _, cached := range []bool{false, true} {
				for _, o := range []string{"ascending", "descending", "address", "pingpong", "random"} {
					for k := 0; k < reps; k++ {
						cs = append(cs, mapCase(cached, o, k))
					}
				}
			}
			for k := 0; k < reps; k++ {
				cs = append(cs, arrayCase(k))
			}
			return cs
		},
		CaseTimeout: 60e9,
	})
}
