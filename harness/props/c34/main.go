// C34: a write that fails is reported.
package main

import (
	"reflect"
	"unsafe"

	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	"github.com/KitchenMishap/pudding-shed/memfile"
	"github.com/KitchenMishap/pudding-shed/wordfile"

	"verifharness/kit"
	"verifharness/lib/faulty"
	"verifharness/lib/fdmon"
	"verifharness/lib/subjects"
)

func plan(r *rand.Rand, dir string, at int) *faulty.Plan {
	return &faulty.Plan{Dir: dir, Kinds: faulty.Writing, At: at, Mode: r.Intn(faulty.Modes), Err: faulty.WriteErrno(r), Torn: r.Intn(2) == 0}
}

func say(p *faulty.Plan) string {
	how := ""
	if p.Torn {
		how = "after half of it, "
	}
	return fmt.Sprintf("%s failing (%v), %s%s", p.First, p.Err, how, faulty.ModeName[p.Mode])
}

// holds says whether all is there.
func holds(t *kit.T, x *subjects.Thing, dir string, seed int64) error {
	for _, open := range []func(string) (subjects.Session, error){x.RO, x.RW} {
		if open == nil {
			continue
		}
		y, err := open(dir)
		if err == nil {
			err = y.Read(t, rand.New(rand.NewSource(seed^0x5eed)), 40)
			if y.Close != nil {
				if e := y.Close(); err == nil {
					err = e
				}
			}
		}
		if err != nil {
			return err
		}
		t.Evals(1)
	}
	return nil
}

func building(s subjects.Subject, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("building/%s/%d", s.Name, k), Timeout: 6 * time.Minute, Run: func(t *kit.T) {
		defer fdmon.Hold()()
		defer faulty.Disarm()
		r := t.R
		seed := r.Int63()
		dir := t.SubDir("count")
		count := &faulty.Plan{Dir: dir, Kinds: faulty.Writing, At: -1}
		x := s.New(rand.New(rand.NewSource(seed)))
		count.Arm()
		err := x.Build(dir)
		faulty.Disarm()
		t.NoErr(err, "building")
		t.NoErr(holds(t, x, dir, seed), "reading")
		t.CountMax("operations_of_building", int64(count.Ops))
		most := 25
		if strings.HasPrefix(s.Name, "chain/") {
			most = 10
		}
		if t.Thorough() {
			most *= 8
		}
		for j, i := range count.Points(r, most) {
			dir := t.SubDir(fmt.Sprintf("x%d", j))
			x := s.New(rand.New(rand.NewSource(seed)))
			p := plan(r, dir, i)
			var err error
			p.Arm()
			crash := faulty.Guarded(func() { err = x.Build(dir) })
			faulty.Disarm()
			what := fmt.Sprintf("%s, building, %s", s.Name, say(p))
			if p.Failed == 0 {
				t.NoErr(err, "building without a fault")
				continue
			}
			t.Evals(1)
			t.Count("faults", 1)
			t.Count("faults_when_building", 1)
			t.Distinct(s.Name, "building", p.First, p.Mode, p.Torn)
			if crash != "" {
				t.Failf("crash", "%s: a crash: %s", what, crash)
				t.Retire()
				return
			}
			if err != nil {
				t.Count("reported", 1)
				if o := fdmon.Open(dir); len(o) > 0 {
					t.Failf("open-built", "%s, is reported (%v); but %v stays open", what, err, o)
				}
				os.RemoveAll(dir)
				continue
			}
			t.Count("built_nevertheless", 1)
			if err := holds(t, x, dir, seed); err != nil {
				t.Failf("unreported", "%s, is not reported; but then: %v", what, err)
			}
			os.RemoveAll(dir)
		}
	}}
}

func appending(s subjects.Subject, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("appending/%s/%d", s.Name, k), Timeout: 6 * time.Minute, Run: func(t *kit.T) {
		defer fdmon.Hold()()
		defer faulty.Disarm()
		r := t.R
		chain := strings.Contains(s.Name, "chain")
		seed, seed2, n := r.Int63(), int64(0), 1+r.Intn(6)
		start := func(name string) (*subjects.Thing, string, subjects.Session) {
			x := s.New(rand.New(rand.NewSource(seed)))
			dir := t.SubDir(name)
			t.NoErr(x.Build(dir), "building")
			if x.RW == nil {
				return x, dir, subjects.Session{}
			}
			y, err := x.RW(dir)
			t.NoErr(err, "opening for writing")
			return x, dir, y
		}
		use := func(y subjects.Session, p *faulty.Plan, ended *string) error {
			r := rand.New(rand.NewSource(seed2))
			*ended = "appending"
			var first error
			note := func(err error, at string) {
				if first == nil {
					first = err
					*ended = at
				}
			}
			// a chain is not appended to after an append that failed
			for steps := 2 + r.Intn(6); steps > 0; steps-- {
				switch {
				case steps == 1:
					note(y.Sync(), "syncing")
				case r.Intn(5) < 3:
					if first == nil || !chain && r.Intn(2) == 0 {
						note(y.Append(r, n), "appending")
					}
				case r.Intn(3) < 2:
					note(y.Read(t, r, 1+r.Intn(2)), "reading")
				default:
					note(y.Sync(), "syncing")
				}
			}
			if first == nil {
				note(y.Append(r, n), "appending more")
			}
			if y.Close != nil {
				if y.Mute {
					note(y.Sync(), "syncing again") // closing a chain reports nothing
				}
				note(y.Close(), "closing")
			} else {
				note(y.Sync(), "syncing again")
			}
			return first
		}
		var before *subjects.Thing
		if !chain { // with a folder of its own
			before = s.New(rand.New(rand.NewSource(seed)))
			t.NoErr(before.Build(t.SubDir("before")), "building")
		}
		rounds := 3
		if chain {
			rounds = 1
		}
		for round := 0; round < rounds; round++ {
			seed2 = r.Int63()
			_, dir, y := start(fmt.Sprintf("count%d", round))
			if y.Append == nil {
				t.Count("nothing_to_append_to", 1)
				t.Evals(1)
				if y.Close != nil {
					t.NoErr(y.Close(), "closing")
				}
				return
			}
			count := &faulty.Plan{Dir: dir, Kinds: faulty.Writing, At: -1}
			var at string
			count.Arm()
			t.NoErr(use(y, count, &at), "appending")
			faulty.Disarm()
			most := 25
			if chain {
				most = 10
			}
			if t.Thorough() {
				most *= 8
			}
			t.CountMax("operations_of_appending", int64(count.Ops))
			points := count.Points(r, most)
			for len(points) > 0 && len(points) < most/2 {
				points = append(points, points...) // in other ways
			}
			for j, i := range points {
				x, dir, y := start(fmt.Sprintf("x%d.%d", round, j))
				p := plan(r, dir, i)
				var err error
				p.Arm()
				crash := faulty.Guarded(func() { err = use(y, p, &at) })
				faulty.Disarm()
				what := fmt.Sprintf("%s, %s, %s", s.Name, at, say(p))
				if p.Failed == 0 {
					t.NoErr(err, "appending without a fault")
					continue
				}
				t.Evals(1)
				t.Count("faults", 1)
				t.Count("faults_when_appending", 1)
				t.Distinct(s.Name, "appending", p.First, p.Mode, p.Torn)
				if crash != "" {
					t.Failf("crash", "%s: a crash: %s", what, crash)
					t.Retire()
					return
				}
				if l := fdmon.Open(dir); len(l) > 0 && y.Close != nil {
					t.Failf("open", "%s (%v), and closed: still open: %s", what, err, fdmon.Short(l))
				}
				if subjects.IsWrong(err) {
					t.Failf("wrong", "%s: %v", what, err)
				}
				if err != nil {
					t.Count("reported_when_"+strings.ReplaceAll(at, " ", "_"), 1)
					t.Count("reported", 1)
					// What was stored before is still there, if nothing was torn, and where nothing of it was to be changed.
					if !p.Torn && !chain && s.Name != "file/fixed" {
						subjects.Loose = true
						err := holds(t, before, dir, seed)
						subjects.Loose = false
						t.Count("losses_looked_for", 1)
						if err != nil {
							t.Failf("lost", "%s, is reported; but what was stored before: %v", what, err)
						}
					}
					os.RemoveAll(dir)
					continue
				}
				t.Count("appended_nevertheless", 1)
				if err := holds(t, x, dir, seed2); err != nil {
					t.Failf("unreported", "%s, is not reported; but then: %v", what, err)
				}
				os.RemoveAll(dir)
			}
		}
	}}
}

// resuming goes on with a file after a write to it has failed.
func resuming(kind string, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("resuming/%s/%d", kind, k), Run: func(t *kit.T) {
		defer fdmon.Hold()()
		defer faulty.Disarm()
		rounds := 150
		if t.Thorough() {
			rounds = 1500
		}
		for round := 0; round < rounds; round++ {
			seed := t.R.Int63()
			count := &faulty.Plan{Kinds: faulty.Writing, At: -1}
			f := newLong(t, kind, fmt.Sprintf("count%d", round), seed, count)
			f.use(t)
			if count.Ops == 0 {
				continue
			}
			p := plan(t.R, "", t.R.Intn(count.Ops))
			g := newLong(t, kind, fmt.Sprintf("x%d", round), seed, p)
			g.use(t)
			if p.Failed == 0 {
				t.Failf("fewer", "%s: fewer operations than without a fault", kind)
			}
			t.Evals(1)
			t.Count("faults", 1)
			t.Count("faults_gone_on_after", 1)
			t.Count("bytes_known_at_the_end", int64(g.known()))
			t.Count("bytes_unknown_at_the_end", int64(len(g.data)-g.known()))
			t.Count("operations_done_after_an_error", int64(g.after))
			t.Distinct(kind, "resuming", p.First, p.Mode, p.Torn, g.errs > 1)
			os.RemoveAll(f.dir)
			os.RemoveAll(g.dir)
		}
	}}
}

// What is known of a byte.
const (
	unknown = iota // some write of it, or of one not yet synced, has failed
	pending
	durable
)

// long is a file which is written to, and what must be in it.
type long struct {
	dir, path string
	words     bool
	width     int // of a word
	data      []byte
	state     []byte
	r         *rand.Rand
	plan      *faulty.Plan
	write     func(off int, p []byte) error
	read      func(off int, p []byte) error
	sync      func() error
	close     func() error
	errs      int
	after     int // operations done after an error
}

func newLong(t *kit.T, kind, name string, seed int64, p *faulty.Plan) *long {
	f := &long{dir: t.SubDir(name), width: 1, r: rand.New(rand.NewSource(seed)), plan: p}
	p.Dir = f.dir
	f.path = filepath.Join(f.dir, "f.int")
	if kind != "bytes" {
		f.words, f.width = true, 1+f.r.Intn(8)
	}
	f.data = make([]byte, f.width*f.r.Intn(3000))
	f.r.Read(f.data)
	f.state = bytes.Repeat([]byte{durable}, len(f.data))
	t.NoErr(os.WriteFile(f.path, f.data, 0644), "writing")
	if kind == "bytes" {
		file, err := os.OpenFile(f.path, os.O_RDWR, 0)
		t.NoErr(err, "opening")
		m, err := memfile.NewAppendOptimizedFile(file)
		t.NoErr(err, "opening")
		f.sync, f.close = m.Sync, m.Close
		f.write = func(off int, p []byte) error { _, err := m.WriteAt(p, int64(off)); return err }
		f.read = func(off int, p []byte) error { _, err := m.ReadAt(p, int64(off)); return err }
		return f
	}
	w, err := wordfile.NewConcreteWordFileCreator("f", f.dir, int64(f.width), kind == "shadowed", false).OpenWordFile()
	t.NoErr(err, "opening")
	f.sync, f.close = w.Sync, w.Close
	f.write = func(off int, p []byte) error {
		var b [8]byte
		copy(b[:], p)
		return w.WriteWordAt(int64(binary.LittleEndian.Uint64(b[:])), int64(off/f.width))
	}
	f.read = func(off int, p []byte) error {
		v, err := w.ReadWordAt(int64(off / f.width))
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(v))
		copy(p, b[:])
		return err
	}
	return f
}

func (f *long) known() (n int) {
	for _, s := range f.state {
		if s == durable {
			n++
		}
	}
	return n
}

// done says what an operation has made of what was pending.
func (f *long) done(err error, is byte) {
	if err == nil {
		if f.errs > 0 {
			f.after++
		}
		if is != durable {
			return
		}
	} else {
		is = unknown
		f.errs++
	}
	for i, s := range f.state {
		if s == pending {
			f.state[i] = is
		}
	}
}

func (f *long) use(t *kit.T) {
	r := f.r
	steps := 5 + r.Intn(40)
	until := r.Intn(2 * steps) // when the faults end
	failed := -1               // what has to be written again
	f.plan.Arm()
	for k := 0; k < steps; k++ {
		if k == until {
			faulty.Disarm()
		}
		switch x := r.Intn(20); {
		case x < 13:
			n := 1
			if f.words {
				n = 1 + r.Intn(3)
				if r.Intn(6) == 0 {
					n = 1 + r.Intn(1500)
				}
			}
			off := len(f.data)
			if failed >= 0 && r.Intn(2) == 0 {
				off = failed
			}
			failed = -1
			switch y := r.Intn(10); {
			case y < 1:
				off += f.width * (1 + r.Intn(40))
			case y < 4 && off > 0:
				off = f.width * r.Intn(off/f.width)
			}
			for ; n > 0; n-- {
				p := make([]byte, f.width)
				if !f.words {
					p = make([]byte, 1+r.Intn(30))
					if r.Intn(6) == 0 {
						p = make([]byte, 1+r.Intn(9000))
					}
				}
				r.Read(p)
				end := len(f.data)
				for len(f.data) < off+len(p) {
					f.data = append(f.data, 0)
					if len(f.data) <= off && f.errs == 0 {
						f.state = append(f.state, pending) // skipped, and so zero
					} else {
						f.state = append(f.state, unknown)
					}
				}
				err := f.write(off, p)
				s := byte(pending)
				if err != nil {
					s, failed = unknown, off
					for i := end; i < len(f.data); i++ {
						f.state[i] = unknown
					}
				}
				copy(f.data[off:], p)
				for i := range p {
					f.state[off+i] = s
				}
				f.done(err, pending)
				if err == nil || r.Intn(3) == 0 { // otherwise again
					off += len(p)
				}
			}
		case x < 18 && len(f.data) > 0:
			for n := 1 + r.Intn(20); n > 0; n-- {
				off := f.width * r.Intn(len(f.data)/f.width)
				p := make([]byte, f.width)
				if !f.words {
					p = make([]byte, 1+r.Intn(min(50, len(f.data)-off)))
				}
				err := f.read(off, p)
				if err == nil {
					for i := range p {
						if f.state[off+i] != unknown && p[i] != f.data[off+i] {
							t.Failf("resumed", "%s, then gone on: byte %d of %d is read as %d, not %d", say(f.plan), off+i, len(f.data), p[i], f.data[off+i])
							break
						}
					}
					t.Evals(1)
				}
				f.done(err, pending)
			}
		default:
			f.done(f.sync(), durable)
		}
	}
	faulty.Disarm()
	f.done(f.close(), durable)
	got, err := os.ReadFile(f.path)
	t.NoErr(err, "reading the file")
	for i, s := range f.state {
		if s == durable && (i >= len(got) || got[i] != f.data[i]) {
			x := "missing"
			if i < len(got) {
				x = fmt.Sprint(got[i])
			}
			t.Failf("resumed", "%s, then gone on: byte %d of %d is %s, not %d", say(f.plan), i, len(f.data), x, f.data[i])
			break
		}
	}
	t.Evals(1)
}

// arrays goes on with a map of arrays after an operation on its files has failed.
func arrays(cached bool, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("resuming/arrays-%v/%d", cached, k), Run: func(t *kit.T) {
		defer fdmon.Hold()()
		defer faulty.Disarm()
		rounds := 120
		if t.Thorough() {
			rounds = 1200
		}
		both := map[string]bool{}
		for _, m := range []map[string]bool{faulty.Reading, faulty.Writing} {
			for op := range m {
				both[op] = true
			}
		}
		for round := 0; round < rounds; round++ {
			seed := t.R.Int63()
			count := &faulty.Plan{Kinds: both, At: -1}
			useArrays(t, cached, fmt.Sprintf("count%d", round), seed, count)
			if count.Ops == 0 {
				continue
			}
			p := plan(t.R, "", t.R.Intn(count.Ops))
			p.Kinds = both
			useArrays(t, cached, fmt.Sprintf("x%d", round), seed, p)
			t.Evals(1)
			t.Count("faults", 1)
			t.Count("faults_gone_on_after", 1)
			t.Distinct("arrays", cached, "resuming", p.First, p.Mode, p.Torn)
		}
	}}
}

// trimming lowers the cache limit of a cached map, so that it has to write files of its own accord.
func trimming(m any, limit int64) bool {
	v := reflect.ValueOf(m).Elem().FieldByName("cacheElementCountLimit")
	if !v.IsValid() || v.Kind() != reflect.Int64 {
		return false
	}
	*(*int64)(unsafe.Pointer(v.UnsafeAddr())) = limit
	return true
}

func useArrays(t *kit.T, cached bool, name string, seed int64, p *faulty.Plan) {
	r := rand.New(rand.NewSource(seed))
	p.Dir = t.SubDir(name)
	defer os.RemoveAll(p.Dir)
	c := intarrayarray.NewConcreteMapStoreCreator("a", p.Dir, 1, int64(1+r.Intn(2)), 4, cached)
	t.NoErr(c.CreateMap(), "creating")
	m, err := c.OpenMap()
	t.NoErr(err, "opening")
	if r.Intn(2) == 0 && trimming(m, int64(1+r.Intn(30))) {
		t.Count("maps_with_little_cache", 1)
	}
	type value struct {
		v      int64
		failed bool // and so may be there, or not
	}
	model := map[int64][]value{}
	keys := []int64{}
	for n := 2 + r.Intn(6); n > 0; n-- {
		keys = append(keys, int64(r.Intn([]int{10, 100, 3000}[r.Intn(3)])))
	}
	right := func(what string, m interface{ GetArray(int64) ([]int64, error) }, key int64) error {
		got, err := m.GetArray(key)
		if err != nil {
			return err
		}
		i := 0
		for _, v := range model[key] {
			if i < len(got) && got[i] == v.v {
				i++
			} else if !v.failed {
				t.Failf("resumed", "arrays, %s, then gone on: %s array %d gives %v, not %v", say(p), what, key, got, model[key])
				return nil
			}
		}
		if i < len(got) {
			t.Failf("resumed", "arrays, %s, then gone on: %s array %d gives %v, not %v", say(p), what, key, got, model[key])
		}
		t.Evals(1)
		return nil
	}
	steps := 5 + r.Intn(30)
	until := r.Intn(2 * steps)
	errs, after := 0, int64(0)
	crash := faulty.Guarded(func() {
		p.Arm()
		for n, v := 0, int64(0); n < steps; n++ {
			if n == until {
				faulty.Disarm()
			}
			var err error
			key := keys[r.Intn(len(keys))]
			switch x := r.Intn(10); {
			case x < 7:
				v++
				err = m.AppendToArray(key, v)
				model[key] = append(model[key], value{v, err != nil})
			case x < 9:
				err = right("in the session,", m, key)
			default:
				err = m.Sync()
			}
			if err != nil {
				errs++
			} else if errs > 0 {
				after++
			}
		}
		faulty.Disarm()
		t.Count("operations_done_after_an_error", after)
		if err := m.Sync(); err != nil {
			t.Count("never_synced", 1)
			return
		}
		ro, err := c.OpenMapReadOnly()
		t.NoErr(err, "opening")
		for _, key := range keys {
			t.NoErr(right("opened again,", ro, key), "reading")
		}
	})
	faulty.Disarm()
	if crash != "" {
		t.Failf("crash", "arrays, %s, then gone on: a crash: %s", say(p), crash)
	}
}

// hashes goes on with something of hashes after an operation on its files has failed.
func hashes(s subjects.Subject, k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("resuming/%s/%d", s.Name, k), Run: func(t *kit.T) {
		defer fdmon.Hold()()
		defer faulty.Disarm()
		rounds := 30
		if t.Thorough() {
			rounds = 300
		}
		both := map[string]bool{}
		for _, m := range []map[string]bool{faulty.Reading, faulty.Writing} {
			for op := range m {
				both[op] = true
			}
		}
		for round := 0; round < rounds; round++ {
			seed := t.R.Int63()
			count := &faulty.Plan{Kinds: both, At: -1}
			if !useHashes(t, s, fmt.Sprintf("count%d", round), seed, count) {
				t.Count("nothing_to_append_to", 1)
				t.Evals(1)
				return
			}
			if count.Ops == 0 {
				continue
			}
			points := count.Points(t.R, 4)
			for j, at := range points {
				p := plan(t.R, "", at)
				p.Kinds, p.Torn = both, false
				useHashes(t, s, fmt.Sprintf("x%d.%d", round, j), seed, p)
				t.Evals(1)
				t.Count("faults", 1)
				t.Count("faults_gone_on_after", 1)
				t.Distinct(s.Name, "resuming", p.First, p.Mode)
			}
		}
	}}
}

func useHashes(t *kit.T, s subjects.Subject, name string, seed int64, p *faulty.Plan) bool {
	r := rand.New(rand.NewSource(seed))
	p.Dir = t.SubDir(name)
	defer os.RemoveAll(p.Dir)
	x := s.New(r)
	t.NoErr(x.Build(p.Dir), "building")
	y, err := x.RW(p.Dir)
	t.NoErr(err, "opening")
	if y.Hashes == nil || y.Hashes.Add == nil {
		if y.Close != nil {
			t.NoErr(y.Close(), "closing")
		}
		return false
	}
	type hash struct {
		h     [32]byte
		i     int64
		again bool // an adding of it has failed
		state byte
	}
	var all []*hash
	var failed [][32]byte
	steps := 5 + r.Intn(60)
	until := r.Intn(2 * steps)
	errs, after := 0, int64(0)
	done := func(err error, is byte) {
		if err == nil {
			if errs > 0 {
				after++
			}
			if is != durable {
				return
			}
		} else {
			is = unknown
			errs++
		}
		for _, h := range all {
			if h.state == pending {
				h.state = is
			}
		}
	}
	right := func(what string, a *subjects.Hashes, h *hash) error {
		i := h.i
		if !h.again {
			g, err := a.Index(h.h)
			if err != nil {
				return err
			}
			if g != i {
				t.Failf("resumed", "%s, %s, then gone on: %s the index of hash %d is %d", s.Name, say(p), what, i, g)
			}
		} else {
			var err error
			if i, err = a.Index(h.h); err != nil {
				return err
			}
		}
		if h.again && strings.HasPrefix(s.Name, "hash-index/") {
			return nil // its first place may have been lost since
		}
		var g [32]byte
		if err := a.At(i, &g); err != nil {
			return err
		}
		if g != h.h {
			t.Failf("resumed", "%s, %s, then gone on: %s the hash at %d is %x, not %x", s.Name, say(p), what, i, g, h.h)
		}
		t.Evals(1)
		return nil
	}
	crash := faulty.Guarded(func() {
		p.Arm()
		for n := 0; n < steps; n++ {
			if n == until {
				faulty.Disarm()
			}
			switch z := r.Intn(10); {
			case z < 6:
				h := &hash{state: pending}
				if len(failed) > 0 && r.Intn(2) == 0 {
					k := r.Intn(len(failed))
					h.h, h.again = failed[k], true
					failed = append(failed[:k], failed[k+1:]...)
				} else {
					h.h = y.Hashes.Fresh(r)
				}
				var err error
				if h.i, err = y.Hashes.Add(h.h); err != nil {
					failed = append(failed, h.h)
				} else {
					all = append(all, h)
				}
				done(err, pending)
			case z < 9:
				for m := 1 + r.Intn(4); m > 0 && len(all) > 0; m-- {
					if h := all[r.Intn(len(all))]; h.state != unknown {
						done(right("in the session,", y.Hashes, h), pending)
					}
				}
			default:
				done(y.Sync(), durable)
			}
		}
		faulty.Disarm()
		t.Count("operations_done_after_an_error", after)
		done(y.Sync(), durable)
		if y.Close != nil {
			done(y.Close(), durable)
		}
		for _, open := range []func(string) (subjects.Session, error){x.RO, x.RW} {
			z, err := open(p.Dir)
			t.NoErr(err, "opening again")
			for _, h := range all {
				if h.state == durable {
					t.Count("hashes_known_at_the_end", 1)
					if err := right("opened again,", z.Hashes, h); err != nil {
						t.Failf("resumed", "%s, %s, then gone on: opened again, hash %d: %v", s.Name, say(p), h.i, err)
						break
					}
				} else {
					t.Count("hashes_unknown_at_the_end", 1)
				}
			}
			if z.Close != nil {
				t.NoErr(z.Close(), "closing")
			}
		}
	})
	faulty.Disarm()
	if crash != "" {
		t.Failf("crash", "%s, %s, then gone on: a crash: %s", s.Name, say(p), crash)
	}
	return true
}

func main() {
	kit.Main(kit.Prop{
		ID: "C34", Level: "exercised", Workers: 8, MinEvals: 1000, CaseTimeout: 6 * time.Minute,
		Rule: "one operation of the operating system that changes the folder of a store - a create, write, truncate, sync, rename, remove or making of a folder - " +
			"or that and all later ones, fails, cleanly or after half of the write, while the store is built or appended to, synced and closed; package os is compiled with a hook " +
			"for it. A sample of the operations, as many of each kind on each file as can be, is made to fail. Nothing may crash or hang; if nothing reported an error all " +
			"must be there when opened again; after Close no file of the folder may be open; if an error was reported and the write failed cleanly, what had been stored before must still be there; a hash store, cake, map of arrays, word file or append-optimized file is gone on with, and everything appended or written, and synced or closed, without an error must be in it. " +
			"Passing means every fault injected was reported or did no harm.",
		Assumptions: []string{
			"closing a chain reports nothing, so chains are synced before they are closed; nothing is appended to a chain after an append that failed",
			"half a write in place may lose what was there (nothing is journalled)",
			"what a failed session leaves of its own things is not judged, except what it adds and syncs after the failure (hashes tried again in an index apart), nor are a chain's earlier blocks here (C25 does)",
			"fsync that fails and power loss are not modelled beyond the error returned",
		},
		Cases: func(tier string, seed int64) []kit.Case {
			n := 1
			if tier == "thorough" {
				n = 12
			}
			var cs []kit.Case
			for k := 0; k < n; k++ {
				for _, s := range subjects.All() {
					if s.Name == "chain/in-ram" {
						continue
					}
					if s.Name == "deep-cake" && (k > 0 || tier != "thorough") {
						continue
					}
					cs = append(cs, building(s, k), appending(s, k))
					if s.Name == "cake" || s.Name == "tier-zero" || strings.HasPrefix(s.Name, "hash-") {
						cs = append(cs, hashes(s, k))
					}
				}
				for _, kind := range []string{"bytes", "words", "shadowed"} {
					cs = append(cs, resuming(kind, k))
				}
				cs = append(cs, arrays(false, k), arrays(true, k))
			}
			return cs
		},
	})
}
