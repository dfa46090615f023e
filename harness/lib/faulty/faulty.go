// Package faulty makes operations on files and folders below a folder fail. It needs the package os of tools/faultos.
package faulty

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
)

// Reading and Writing are the kinds of operations.
var (
	Reading = map[string]bool{"open": true, "read": true, "pread": true, "stat": true, "readdir": true, "seek": true}
	Writing = map[string]bool{"create": true, "write": true, "pwrite": true, "truncate": true, "sync": true, "mkdir": true, "rename": true, "remove": true}
)

// How the faults go on after the first.
const (
	Once  = iota // only that operation
	Ever         // that and all later operations
	File         // that and all later operations on the same file
	Modes        // how many there are
)

// Plan of faults.
type Plan struct {
	Dir   string // what is below
	Kinds map[string]bool
	At    int // of the operation, counted from 0; negative: none
	Mode  int
	Err   syscall.Errno
	Torn  bool                       // a failing write has written half
	Skip  func(op, name string) bool // not counted and not failing

	mu     sync.Mutex
	Ops    int      // seen
	Log    []string // what they were, when none is to fail
	Failed int
	First  string // what failed first
	file   string
	gone   bool // the faults have begun
}

// Arm lets the faults happen from now on; Disarm ends them.
func (p *Plan) Arm() {
	f := func(op, name string) error {
		if !p.Kinds[op] || !strings.HasPrefix(name, p.Dir) || (p.Skip != nil && p.Skip(op, name)) {
			return nil
		}
		p.mu.Lock()
		defer p.mu.Unlock()
		n := p.Ops
		p.Ops++
		fail := false
		switch {
		case p.At < 0:
			p.Log = append(p.Log, op+" "+strings.TrimPrefix(name, p.Dir))
		case n == p.At:
			fail, p.gone, p.file = true, true, name
			p.First = op + " " + strings.TrimPrefix(name, p.Dir)
		case p.gone && p.Mode == Ever:
			fail = true
		case p.gone && p.Mode == File:
			fail = name == p.file
		}
		if !fail {
			return nil
		}
		p.Failed++
		return p.Err
	}
	os.VerifTorn.Store(p.Torn)
	os.VerifFault.Store(&f)
}

// Disarm ends the faults.
func Disarm() { os.VerifFault.Store(nil) }

// ModeName says the same.
var ModeName = []string{"once", "from then on", "from then on for that file"}

var errnos = []syscall.Errno{syscall.EIO, syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENOMEM}
var writeErrnos = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EROFS}

// Errno of a failing read, or open.
func Errno(r *rand.Rand) syscall.Errno { return errnos[r.Intn(len(errnos))] }

// WriteErrno of a failing write.
func WriteErrno(r *rand.Rand) syscall.Errno { return writeErrnos[r.Intn(len(writeErrnos))] }

// Points picks at most so many of the operations logged, as many of each kind on each file as can be.
func (p *Plan) Points(r *rand.Rand, most int) []int {
	if len(p.Log) <= most {
		return r.Perm(len(p.Log))
	}
	of := map[string][]int{}
	var kinds []string
	for i, k := range p.Log {
		if of[k] == nil {
			kinds = append(kinds, k)
		}
		of[k] = append(of[k], i)
	}
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	for _, k := range kinds {
		l := of[k]
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	var at []int
	for round := 0; len(at) < most; round++ {
		for _, k := range kinds {
			if round < len(of[k]) && len(at) < most {
				at = append(at, of[k][round])
			}
		}
	}
	return at
}

// Guarded gives what f panicked with, if it did.
func Guarded(f func()) (p string) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 3000)
			p = fmt.Sprintf("%v\n%s", x, buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
	return ""
}
