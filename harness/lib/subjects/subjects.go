// Package subjects has everything of the repository that is opened from a folder, behind one interface:
// built with some contents, opened for reading or for writing, used, closed.
package subjects

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	ih3 "github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	"github.com/KitchenMishap/pudding-shed/memfile"
	"github.com/KitchenMishap/pudding-shed/weddingcake"
	"github.com/KitchenMishap/pudding-shed/weddingcakefront"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"verifharness/kit"
	"verifharness/lib/btc"
	"verifharness/lib/store"
)

// Session is something opened.
type Session struct {
	Read   func(t *kit.T, r *rand.Rand, n int) error // looks n things up, and compares them
	Append func(r *rand.Rand, n int) error           // nil: read only
	Sync   func() error
	Close  func() error // nil: it has nothing to close
	Mute   bool         // its closing can't report anything: it has to be synced first

	Hashes *Hashes // nil: it isn't of hashes
}

// Hashes are the operations of something of hashes.
type Hashes struct {
	Index func(h [32]byte) (int64, error)
	At    func(i int64, p *[32]byte) error
	Add   func(h [32]byte) (int64, error) // nil: read only
	Fresh func(r *rand.Rand) [32]byte
}

// Thing lives in a folder.
type Thing struct {
	Build  func(dir string) error // with contents
	RW, RO func(dir string) (Session, error)
}

// Subject makes things.
type Subject struct {
	Name string
	New  func(r *rand.Rand) *Thing
}

var errWrong = errors.New("wrong answer")

func wrong(f string, a ...interface{}) error {
	return fmt.Errorf("%w: %s", errWrong, fmt.Sprintf(f, a...))
}

// IsWrong tells a wrong answer from a failure.
func IsWrong(err error) bool { return errors.Is(err, errWrong) }

// Hostile makes the sessions write over what they handed in and over some of what was handed out to them,
// and keep the rest to see that it stays as it was.
var Hostile bool

// Loose lets there be more than what was stored, as when some storing failed.
var Loose bool

// Light makes most readings of chains small ones.
var Light bool

// Kept counts what was kept and found unchanged, and Spoilt what was written over.
var Kept, Spoilt int64

type kept struct {
	what  string
	same  func() bool
	spoil func()
}

type keeper struct{ l []kept }

// keep remembers something handed out.
func (k *keeper) keep(r *rand.Rand, what string, same func() bool, spoil func()) {
	if Hostile && len(k.l) < 400 {
		k.l = append(k.l, kept{what, same, spoil})
	}
}

// check looks at all that was kept, and spoils and forgets some of it.
func (k *keeper) check(r *rand.Rand) error {
	for i := 0; i < len(k.l); i++ {
		if !k.l[i].same() {
			return wrong("%s was handed out before and has changed since", k.l[i].what)
		}
		Kept++
	}
	for i := 0; i < len(k.l); {
		if r.Intn(3) == 0 {
			k.l[i].spoil()
			Spoilt++
			k.l[i] = k.l[len(k.l)-1]
			k.l = k.l[:len(k.l)-1]
		} else {
			i++
		}
	}
	return nil
}

// lend hands a hash in, by pointer.
func lend(h [32]byte, f func(p *[32]byte) (int64, error)) (int64, error) {
	p := new([32]byte)
	*p = h
	i, err := f(p)
	if Hostile {
		if *p != h {
			return i, wrong("the hash handed in was changed to %x", *p)
		}
		for k := range p {
			p[k] = 0xa5
		}
		Spoilt++
	}
	return i, err
}

// hashReader is what the hash stores of all packages have in common.
type hashReader struct {
	index func(h [32]byte) (int64, error)
	at    func(i int64, p *[32]byte) error
	add   func(h [32]byte) (int64, error)
	sync  func() error
	close func() error
}

type hashes struct {
	list [][32]byte
	bits int // of the first 8 bytes which vary
}

func (l *hashes) fresh(r *rand.Rand) (h [32]byte) {
	r.Read(h[:])
	v := binary.LittleEndian.Uint64(h[:8])
	if l.bits < 64 {
		v &= 1<<uint(l.bits) - 1
	}
	binary.LittleEndian.PutUint64(h[:8], v)
	return h
}

func (l *hashes) session(s hashReader, rw bool) Session {
	k := &keeper{}
	read := func(_ *kit.T, r *rand.Rand, n int) error {
		if err := k.check(r); err != nil {
			return err
		}
		for ; n > 0; n-- {
			if len(l.list) > 0 {
				i := r.Intn(len(l.list))
				g := new([32]byte)
				if err := s.at(int64(i), g); err != nil {
					return fmt.Errorf("hash at %d: %w", i, err)
				} else if *g != l.list[i] {
					return wrong("hash at %d is %x, want %x", i, *g, l.list[i])
				}
				k.keep(r, fmt.Sprintf("the hash at %d", i), func() bool { return *g == l.list[i] }, func() { r.Read(g[:]) })
				if g, err := s.index(l.list[i]); err != nil {
					return fmt.Errorf("index of hash %d: %w", i, err)
				} else if g != int64(i) {
					return wrong("index of hash %d is %d", i, g)
				}
			}
			if g, err := s.index(l.fresh(r)); err != nil && Loose {
				continue // it may look like one whose storing failed
			} else if err != nil {
				return fmt.Errorf("index of an absent hash: %w", err)
			} else if g != -1 {
				return wrong("index of an absent hash is %d", g)
			}
		}
		return nil
	}
	x := Session{Read: read, Close: s.close, Hashes: &Hashes{Index: s.index, At: s.at, Fresh: l.fresh}}
	if rw {
		x.Hashes.Add = s.add
		x.Sync = s.sync
		x.Append = func(r *rand.Rand, n int) error {
			for k := 0; k < n; k++ {
				h := l.fresh(r)
				i, err := s.add(h)
				if err != nil {
					return err
				}
				if i != int64(len(l.list)) {
					return wrong("hash %d was given index %d", len(l.list), i)
				}
				l.list = append(l.list, h)
			}
			return nil
		}
	}
	return x
}

func fromIh(r ih.HashReader, w ih.HashReadWriter) hashReader {
	x := hashReader{
		index: func(h [32]byte) (int64, error) {
			return lend(h, func(p *[32]byte) (int64, error) { return r.IndexOfHash((*ih.Sha256)(p)) })
		},
		at:    func(i int64, p *[32]byte) error { return r.GetHashAtIndex(i, (*ih.Sha256)(p)) },
		close: r.Close,
	}
	if w != nil {
		x.add = func(h [32]byte) (int64, error) {
			return lend(h, func(p *[32]byte) (int64, error) { return w.AppendHash((*ih.Sha256)(p)) })
		}
		x.sync = w.Sync
	}
	return x
}

// stores of package indexedhashes and indexedhashes3
func ihThing(l *hashes, n int, creator func(dir string, write bool) (ih.HashStoreCreator, error), preload func(dir string, l *hashes) error, r *rand.Rand) *Thing {
	x := &Thing{}
	rw := func(dir string) (Session, error) {
		c, err := creator(dir, true)
		if err != nil {
			return Session{}, err
		}
		if !c.HashStoreExists() {
			return Session{}, errors.New("it does not exist")
		}
		s, err := c.OpenHashStore()
		if err != nil {
			return Session{}, err
		}
		return l.session(fromIh(s, s), true), nil
	}
	x.RW = rw
	x.RO = func(dir string) (Session, error) {
		c, err := creator(dir, false)
		if err != nil {
			return Session{}, err
		}
		s, err := c.OpenHashStoreReadOnly()
		if err != nil {
			return Session{}, err
		}
		return l.session(fromIh(s, nil), false), nil
	}
	x.Build = func(dir string) error {
		if preload != nil {
			for i := 0; i < n; i++ {
				l.list = append(l.list, l.fresh(r))
			}
			return preload(dir, l)
		}
		c, err := creator(dir, true)
		if err != nil {
			return err
		}
		if err = c.CreateHashStore(); err != nil {
			return err
		}
		s, err := rw(dir)
		if err != nil {
			return err
		}
		if err = s.Append(r, n); err != nil {
			_ = s.Close()
			return err
		}
		return s.Close()
	}
	return x
}

func (l *hashes) bytes() []byte {
	var b []byte
	for _, h := range l.list {
		b = append(b, h[:]...)
	}
	return b
}

func basic(mem, append_ bool) func(r *rand.Rand) *Thing {
	return func(r *rand.Rand) *Thing {
		l := &hashes{bits: []int{9, 12, 64}[r.Intn(3)]}
		pb, eb, cc := int64(8+r.Intn(8)), int64(2+r.Intn(3)), int64(2+r.Intn(3))
		return ihThing(l, 1+r.Intn(250), func(dir string, _ bool) (ih.HashStoreCreator, error) {
			return ih.NewConcreteHashStoreCreator("H", dir, pb, eb, cc, mem, append_)
		}, nil, r)
	}
}

func memory(r *rand.Rand) *Thing {
	return ihThing(&hashes{bits: 64}, 1+r.Intn(300), func(dir string, _ bool) (ih.HashStoreCreator, error) {
		return ih.NewConcreteHashStoreCreatorMemory("H", dir)
	}, nil, r)
}

func uniform(r *rand.Rand) *Thing {
	l := &hashes{bits: []int{10, 64}[r.Intn(2)]}
	est, digits := int64(10+r.Intn(300)), 1+r.Intn(3)
	return ihThing(l, 1+r.Intn(400), func(dir string, _ bool) (ih.HashStoreCreator, error) {
		c, _, err := ih.NewUniformHashStoreCreatorAndPreloaderFromFile(dir, "U", 1)
		return c, err
	}, func(dir string, l *hashes) error {
		c, _ := ih.NewUniformHashStoreCreatorAndPreloader(dir, "U", est, digits, 1)
		if err := c.CreateHashStore(); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, "U", "Hashes.hsh"), l.bytes(), 0644); err != nil {
			return err
		}
		_, p, err := ih.NewUniformHashStoreCreatorAndPreloaderFromFile(dir, "U", 1)
		if err != nil {
			return err
		}
		return p.IndexTheHashes()
	}, r)
}

func three(kind string, ram bool) func(r *rand.Rand) *Thing {
	return func(r *rand.Rand) *Thing {
		l := &hashes{bits: 64}
		n := 1 + r.Intn(400)
		bins := int64([]int{2, 16, 64, 256}[r.Intn(4)])
		params := ih3.NewHashStoreParams(16, int64(n+10), 1+r.Intn(3), bins, int64(1+r.Intn(4)), 8)
		sep := string(os.PathSeparator)
		creator := func(dir string, write bool) (ih.HashStoreCreator, error) {
			if kind == "created" { // which writes no file of parameters
				return ih3.NewHashStoreCreatorPrivate(params, dir+sep+"H", ram && !write), nil
			}
			return ih3.NewHashStoreCreatorFromFile(dir, "H", ram && !write)
		}
		if kind == "created" {
			x := ihThing(l, n, creator, nil, r)
			build := x.Build
			x.Build = func(dir string) error {
				if err := os.MkdirAll(dir+sep+"H", 0755); err != nil {
					return err
				}
				return build(dir)
			}
			return x
		}
		return ihThing(l, n, creator, func(dir string, l *hashes) error {
			if err := os.MkdirAll(dir+sep+"H", 0755); err != nil {
				return err
			}
			if err := os.WriteFile(dir+sep+"H"+sep+"Hashes.hsh", l.bytes(), 0644); err != nil {
				return err
			}
			if kind == "adaptive" {
				_, p, err := ih3.NewHashStoreCreatorAndPreloaderAdaptive(dir, "H", params, 1)
				if err != nil {
					return err
				}
				return p.IndexTheHashes(3)
			}
			ba := ih3.NewBinsArray(params.EntriesInBinStart(), params.BytesPerBinEntry(), bins/2)
			_, p, err := ih3.NewHashStoreCreatorAndPreloader(dir, "H", params, 1, ba)
			if err != nil {
				return err
			}
			return p.IndexTheHashes(3)
		}, r)
	}
}

// cake and tier zero

func cake(r *rand.Rand) *Thing { return cakeOf(r, 1+r.Intn(400)) }

// deepCake has tiers below the top.
func deepCake(r *rand.Rand) *Thing { return cakeOf(r, 65535+r.Intn(70000)) }

func cakeOf(r *rand.Rand, n int) *Thing {
	l := &hashes{bits: 64}
	re := byte(r.Intn(9))
	mk := func(dir string, rd weddingcakefront.LegacyHashReader, w weddingcakefront.LegacyHashReadWriter) Session {
		s := hashReader{
			index: func(h [32]byte) (int64, error) {
				return lend(h, func(p *[32]byte) (int64, error) { return rd.IndexOfHash((*weddingcakefront.Sha256)(p)) })
			},
			at:    func(i int64, p *[32]byte) error { return rd.GetHashAtIndex(i, (*weddingcakefront.Sha256)(p)) },
			close: rd.Close,
		}
		if w != nil {
			s.add = func(h [32]byte) (int64, error) {
				return lend(h, func(p *[32]byte) (int64, error) { return w.AppendHash((*weddingcakefront.Sha256)(p)) })
			}
			s.sync = w.Sync
		}
		return l.session(s, w != nil)
	}
	x := &Thing{}
	x.RW = func(dir string) (Session, error) {
		c, err := weddingcakefront.NewCakeCreator(dir, re).OpenHashStore()
		if err != nil {
			return Session{}, err
		}
		return mk(dir, c, c), nil
	}
	x.RO = func(dir string) (Session, error) {
		c, err := weddingcakefront.NewCakeCreator(dir, re).OpenHashStoreReadOnly()
		if err != nil {
			return Session{}, err
		}
		return mk(dir, c, nil), nil
	}
	x.Build = func(dir string) error {
		c := weddingcakefront.NewCakeCreator(dir, re)
		if err := c.CreateHashStore(); err != nil {
			return err
		}
		return fill(x, dir, r, n)
	}
	return x
}

func fill(x *Thing, dir string, r *rand.Rand, n int) error {
	s, err := x.RW(dir)
	if err != nil {
		return err
	}
	if err = s.Append(r, n); err == nil && (s.Close == nil || s.Mute) {
		err = s.Sync()
	}
	if s.Close != nil {
		if e := s.Close(); err == nil {
			err = e
		}
	}
	return err
}

func tierZero(r *rand.Rand) *Thing {
	l := &hashes{bits: 64}
	n := 1 + r.Intn(400)
	mk := func(rd weddingcake.LegacyHashReader, w weddingcake.LegacyHashReadWriter) Session {
		s := hashReader{
			index: func(h [32]byte) (int64, error) {
				return lend(h, func(p *[32]byte) (int64, error) { return rd.IndexOfHash((*weddingcake.Sha256)(p)) })
			},
			at:    func(i int64, p *[32]byte) error { return rd.GetHashAtIndex(i, (*weddingcake.Sha256)(p)) },
			close: rd.Close,
		}
		if w != nil {
			s.add = func(h [32]byte) (int64, error) {
				return lend(h, func(p *[32]byte) (int64, error) { return w.AppendHash((*weddingcake.Sha256)(p)) })
			}
			s.sync = w.Sync
		}
		return l.session(s, w != nil)
	}
	x := &Thing{}
	x.RW = func(dir string) (Session, error) {
		c, err := weddingcake.NewTierZeroCreator(dir).OpenHashStore()
		if err != nil {
			return Session{}, err
		}
		return mk(c, c), nil
	}
	x.RO = func(dir string) (Session, error) {
		c, err := weddingcake.NewTierZeroCreator(dir).OpenHashStoreReadOnly()
		if err != nil {
			return Session{}, err
		}
		return mk(c, nil), nil
	}
	x.Build = func(dir string) error {
		if err := weddingcake.NewTierZeroCreator(dir).CreateHashStore(); err != nil {
			return err
		}
		return fill(x, dir, r, n)
	}
	return x
}

// word files

type wordCreator interface {
	WordFileExists() bool
	CreateWordFile() error
	CreateWordFileFilledZeros(int64) error
	OpenWordFile() (wordfile.ReadWriteAtWordCounter, error)
	OpenWordFileReadOnly() (wordfile.ReadAtWordCounter, error)
}

func words(mk func(dir string, ws int64) wordCreator, mkRO func(dir string, ws int64) wordCreator) func(r *rand.Rand) *Thing {
	return func(r *rand.Rand) *Thing {
		ws := int64(1 + r.Intn(7))
		n := r.Intn(2000)
		zeros := int64(0)
		if r.Intn(3) == 0 {
			zeros = int64(1 + r.Intn(50))
		}
		list := make([]int64, zeros)
		session := func(rd wordfile.ReadAtWordCounter, w wordfile.ReadWriteAtWordCounter) Session {
			x := Session{Close: rd.Close}
			kp := &keeper{}
			x.Read = func(_ *kit.T, r *rand.Rand, n int) error {
				c, err := rd.CountWords()
				if err != nil {
					return err
				}
				if c != int64(len(list)) && !(Loose && c > int64(len(list))) {
					return wrong("%d words, want %d", c, len(list))
				}
				if err := kp.check(r); err != nil {
					return err
				}
				if whole, ok := rd.(interface{ ReadWholeFileAsInt64s() ([]int64, error) }); ok && Hostile {
					a, err := whole.ReadWholeFileAsInt64s()
					if err != nil {
						return err
					}
					if !slices.Equal(a, list) {
						return wrong("the whole file differs")
					}
					was := append([]int64{}, a...)
					kp.keep(r, "the whole file", func() bool { return slices.Equal(a, was) }, func() {
						for i := range a {
							a[i] = -1
						}
						a = append(a, 77, 78)
					})
				}
				for k := 0; k < n && len(list) > 0; k++ {
					i := r.Intn(len(list))
					if v, err := rd.ReadWordAt(int64(i)); err != nil {
						return err
					} else if v != list[i] {
						return wrong("word %d is %d, want %d", i, v, list[i])
					}
				}
				return nil
			}
			if w != nil {
				x.Sync = w.Sync
				x.Append = func(r *rand.Rand, n int) error {
					for k := 0; k < n; k++ {
						v := r.Int63n(int64(1) << uint(8*ws-1))
						if err := w.WriteWordAt(v, int64(len(list))); err != nil {
							return err
						}
						list = append(list, v)
					}
					return nil
				}
			}
			return x
		}
		t := &Thing{}
		t.RW = func(dir string) (Session, error) {
			w, err := mk(dir, ws).OpenWordFile()
			if err != nil {
				return Session{}, err
			}
			return session(w, w), nil
		}
		t.RO = func(dir string) (Session, error) {
			c := mkRO(dir, ws)
			if !c.WordFileExists() {
				return Session{}, errors.New("it does not exist")
			}
			w, err := c.OpenWordFileReadOnly()
			if err != nil {
				return Session{}, err
			}
			return session(w, nil), nil
		}
		t.Build = func(dir string) error {
			c := mk(dir, ws)
			var err error
			if zeros > 0 {
				err = c.CreateWordFileFilledZeros(zeros)
			} else {
				err = c.CreateWordFile()
			}
			if err != nil {
				return err
			}
			return fill(t, dir, r, n)
		}
		return t
	}
}

func plainWords(shadow, ram bool) func(dir string, ws int64) wordCreator {
	return func(dir string, ws int64) wordCreator {
		return wordfile.NewConcreteWordFileCreator("w", dir, ws, shadow, ram)
	}
}
func mmapWords(dir string, ws int64) wordCreator {
	return wordfile.NewConcreteMmapWordFileCreator("w", dir, ws)
}

// integer arrays

func arrays(cached bool) func(r *rand.Rand) *Thing {
	return func(r *rand.Rand) *Thing {
		n := 1 + r.Intn(600)
		keys := []int{5, 150, 30000}[r.Intn(3)]
		df, dd := int64(1+r.Intn(2)), int64(1+r.Intn(2))
		m := map[int64][]int64{}
		creator := func(dir string) *intarrayarray.ConcreteMapStoreCreator {
			return intarrayarray.NewConcreteMapStoreCreator("a", dir, df, dd, 4, cached)
		}
		session := func(rd intarrayarray.IntArrayMapStoreReadOnly, w intarrayarray.IntArrayMapStoreReadWrite) Session {
			kp := &keeper{}
			last := int64(0)
			pick := func(r *rand.Rand) int64 { // often the one before or its neighbours
				switch r.Intn(4) {
				case 0:
				case 1:
					last = max(0, min(int64(keys-1), last+int64(r.Intn(3)-1)))
				default:
					last = int64(r.Intn(keys))
				}
				return last
			}
			x := Session{Read: func(_ *kit.T, r *rand.Rand, n int) error {
				if err := kp.check(r); err != nil {
					return err
				}
				for k := 0; k < n; k++ {
					key := pick(r)
					a, err := rd.GetArray(key)
					if err != nil {
						return err
					}
					if Loose && len(a) > len(m[key]) {
						a = a[:len(m[key])]
					}
					if fmt.Sprint(a) != fmt.Sprint(m[key]) {
						return wrong("array %d is %v, want %v", key, a, m[key])
					}
					if Hostile {
						was := append([]int64{}, a...)
						kp.keep(r, fmt.Sprintf("array %d", key), func() bool { return slices.Equal(a, was) }, func() {
							for i := range a {
								if r.Intn(2) == 0 {
									a[i] = -1
								}
							}
							a = append(a, 77, 78)
						})
					}
				}
				return nil
			}}
			if w != nil {
				x.Sync = w.Sync
				x.Append = func(r *rand.Rand, n int) error {
					for k := 0; k < n; k++ {
						key, v := pick(r), int64(r.Int31())
						if err := w.AppendToArray(key, v); err != nil {
							return err
						}
						m[key] = append(m[key], v)
					}
					return nil
				}
			}
			return x
		}
		t := &Thing{}
		t.RW = func(dir string) (Session, error) {
			w, err := creator(dir).OpenMap()
			if err != nil {
				return Session{}, err
			}
			return session(w, w), nil
		}
		t.RO = func(dir string) (Session, error) {
			w, err := creator(dir).OpenMapReadOnly()
			if err != nil {
				return Session{}, err
			}
			return session(w, nil), nil
		}
		t.Build = func(dir string) error {
			if err := creator(dir).CreateMap(); err != nil {
				return err
			}
			return fill(t, dir, r, n)
		}
		return t
	}
}

// files of package memfile, given an open file

func memfiles(kind string) func(r *rand.Rand) *Thing {
	return func(r *rand.Rand) *Thing {
		var data []byte
		path := func(dir string) string { return filepath.Join(dir, "f") }
		open := func(dir string, flag int, kind string) (Session, error) {
			var f memfile.LookupFile
			var err error
			if kind == "fixed" {
				f, err = memfile.NewFixedSizeMemFile(path(dir), 0644)
			} else {
				var file *os.File
				if file, err = os.OpenFile(path(dir), flag, 0); err != nil {
					return Session{}, err
				}
				switch kind {
				case "append":
					f, err = memfile.NewAppendOptimizedFile(file)
				case "size":
					f = memfile.NewFileWithSize(file)
				case "mmap":
					f, err = memfile.NewMmapReadOnly(file)
				}
				if err != nil {
					file.Close() // which is its opener's
				}
			}
			if err != nil {
				return Session{}, err
			}
			kp := &keeper{}
			x := Session{Close: f.Close, Read: func(_ *kit.T, r *rand.Rand, n int) error {
				if err := kp.check(r); err != nil {
					return err
				}
				if all, ok := f.(interface{ ReadAll() ([]byte, error) }); ok && Hostile && kind != "mmap" {
					b, err := all.ReadAll()
					if err != nil {
						return err
					}
					if !bytes.Equal(b, data) {
						return wrong("all of the bytes")
					}
					was := append([]byte{}, b...)
					kp.keep(r, "the whole file", func() bool { return bytes.Equal(b, was) }, func() {
						r.Read(b)
						b = append(b, "and more"...)
					})
				}
				for k := 0; k < n && len(data) > 0; k++ {
					a := r.Intn(len(data))
					b := a + 1 + r.Intn(min(40, len(data)-a))
					buf := make([]byte, b-a)
					if _, err := f.ReadAt(buf, int64(a)); err != nil {
						return err
					}
					if !bytes.Equal(buf, data[a:b]) {
						return wrong("bytes %d to %d", a, b)
					}
					if Hostile {
						was := append([]byte{}, buf...)
						kp.keep(r, "bytes", func() bool { return bytes.Equal(buf, was) }, func() { r.Read(buf) })
					}
				}
				return nil
			}}
			if flag == os.O_RDWR {
				x.Sync = f.Sync
				x.Append = func(r *rand.Rand, n int) error {
					for k := 0; k < n; k++ {
						b := make([]byte, 1+r.Intn(9))
						r.Read(b)
						at := len(data)
						if kind == "fixed" {
							if at = r.Intn(len(data)); at+len(b) > len(data) {
								b = b[:len(data)-at]
							}
							copy(data[at:], b)
						} else {
							data = append(data, b...) // a copy of them
						}
						was := append([]byte{}, b...)
						if _, err := f.WriteAt(b, int64(at)); err != nil {
							if kind != "fixed" {
								data = data[:at]
							}
							return err
						}
						if Hostile {
							if !bytes.Equal(b, was) {
								return wrong("the bytes handed in were changed")
							}
							r.Read(b)
							Spoilt++
						}
					}
					return nil
				}
			}
			return x, nil
		}
		t := &Thing{}
		t.Build = func(dir string) error {
			data = make([]byte, 1+r.Intn(20000))
			r.Read(data)
			return os.WriteFile(path(dir), data, 0644)
		}
		if kind != "mmap" {
			t.RW = func(dir string) (Session, error) { return open(dir, os.O_RDWR, kind) }
		}
		if kind != "fixed" {
			t.RO = func(dir string) (Session, error) { return open(dir, os.O_RDONLY, kind) }
		}
		return t
	}
}

// whole chains

func chain(delegated, inRam, hashesInRam bool) func(r *rand.Rand) *Thing {
	return func(r *rand.Rand) *Thing {
		o := btc.RandChainOpts(r, 14+r.Intn(20))
		o.Big, o.Wide, o.Dups = false, false, o.Dups && delegated
		c := btc.Chain(r, o)
		m := store.NewModel(c, len(c))
		src := store.RandSource(r, m, delegated)
		useChi := r.Intn(2) == 0
		next := 0
		part := func() *store.Model { return store.NewModel(c[:next], len(c)) }
		creator := func(dir string) (*chainstorage.ConcreteAppendableChainCreator, error) {
			return chainstorage.NewConcreteAppendableChainCreator(dir, store.BlockNeis, store.TransNeis, delegated, false, hashesInRam)
		}
		t := &Thing{}
		t.RW = func(dir string) (Session, error) {
			acc, err := creator(dir)
			if err != nil {
				return Session{}, err
			}
			w, err := store.Open(acc, src, useChi, delegated)
			if err != nil {
				return Session{}, err
			}
			return Session{Read: func(*kit.T, *rand.Rand, int) error { return nil }, Append: func(r *rand.Rand, n int) error {
				for ; n > 0 && next < len(c); n-- {
					if err := w.Block(next); err != nil {
						return err
					}
					next++
				}
				return nil
			}, Sync: w.Ac.Sync, Mute: true, Close: func() error { w.Ac.Close(); return nil }}, nil
		}
		t.RO = func(dir string) (Session, error) {
			open := store.OpenRam
			if !inRam {
				open = func(dir string, delegated bool) (store.View, error) {
					return store.OpenReadOnly(dir, delegated, false, hashesInRam)
				}
			}
			v, err := open(dir, delegated)
			if err != nil {
				return Session{}, err
			}
			return Session{Read: func(kt *kit.T, r *rand.Rand, _ int) error {
				if Light && r.Intn(5) > 0 {
					h, err := v.Bc.LatestBlock()
					if err == nil && h.Height() != int64(next-1) {
						err = wrong("the latest block is %d, want %d", h.Height(), next-1)
					}
					return err
				}
				store.Verify(kt, "chain", part(), v, store.Opts{BlockNeis: store.BlockNeis, TransNeis: store.TransNeis, Absent: 5, Addrs: 5})
				return nil
			}}, nil
		}
		t.Build = func(dir string) error {
			if err := store.GatherHashes(dir, src, useChi, len(c)); err != nil {
				return err
			}
			if err := store.Index(dir, r.Intn(2) == 0, 2, m); err != nil {
				return err
			}
			acc, err := creator(dir)
			if err != nil {
				return err
			}
			if err = acc.CreateFromHashStores(); err != nil {
				return err
			}
			return fill(t, dir, r, 3+r.Intn(8))
		}
		return t
	}
}

func hashesChain(r *rand.Rand) *Thing {
	c := btc.Chain(r, btc.RandChainOpts(r, 25))
	m := store.NewModel(c, len(c))
	src := store.RandSource(r, m, false)
	useChi := r.Intn(2) == 0
	next := 0
	t := &Thing{}
	t.RW = func(dir string) (Session, error) {
		hc, err := chainstorage.NewConcreteHashesChainCreator(dir).Open()
		if err != nil {
			return Session{}, err
		}
		return Session{Read: func(*kit.T, *rand.Rand, int) error {
			b, _, _, err := hc.CountHashes()
			if err == nil && b != int64(next) && !(Loose && b > int64(next)) {
				err = wrong("%d block hashes, want %d", b, next)
			}
			return err
		}, Append: func(r *rand.Rand, n int) error {
			for ; n > 0 && next < len(c); n-- {
				var err error
				if useChi {
					err = hc.AppendHashesChi(store.Chi{Source: src}, store.Chi{Source: src}.Block(next))
				} else {
					err = hc.AppendHashesCri(store.Cri{Source: src}, store.Cri{Source: src}.Block(next), int64(next))
				}
				if err != nil {
					return err
				}
				next++
			}
			return nil
		}, Sync: hc.Sync, Mute: true, Close: func() error { hc.Close(); return nil }}, nil
	}
	t.Build = func(dir string) error {
		cr := chainstorage.NewConcreteHashesChainCreator(dir)
		if err := cr.Create(); err != nil {
			return err
		}
		return fill(t, dir, r, 5)
	}
	return t
}

// All of them.
func All() []Subject {
	var l []Subject
	add := func(name string, f func(r *rand.Rand) *Thing) { l = append(l, Subject{name, f}) }
	for _, deleg := range []bool{false, true} {
		for _, ram := range []bool{false, true} {
			add(fmt.Sprintf("chain/delegated-%v/hashes-in-ram-%v", deleg, ram), chain(deleg, false, ram))
		}
	}
	add("chain/in-ram", chain(true, true, true))
	add("hashes-chain", hashesChain)
	for _, mem := range []bool{false, true} {
		for _, ap := range []bool{false, true} {
			add(fmt.Sprintf("hash-store/mem-%v-append-%v", mem, ap), basic(mem, ap))
		}
	}
	add("hash-store/memory", memory)
	add("hash-store/uniform", uniform)
	for _, kind := range []string{"created", "multi", "adaptive"} {
		for _, ram := range []bool{false, true} {
			add(fmt.Sprintf("hash-index/%s/in-ram-%v", kind, ram), three(kind, ram))
		}
	}
	add("cake", cake)
	add("deep-cake", deepCake)
	add("tier-zero", tierZero)
	add("words/plain", words(plainWords(false, false), plainWords(false, false)))
	add("words/shadowed", words(plainWords(true, false), plainWords(true, false)))
	add("words/in-ram", words(plainWords(false, false), plainWords(false, true)))
	add("words/mmap", words(plainWords(false, false), mmapWords))
	add("arrays/plain", arrays(false))
	add("arrays/cached", arrays(true))
	for _, k := range []string{"append", "size", "mmap", "fixed"} {
		add("file/"+k, memfiles(k))
	}
	return l
}

// Files below a folder.
func Files(dir string) []string {
	var l []string
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			l = append(l, strings.TrimPrefix(p, dir+"/"))
		}
		return nil
	})
	return l
}
