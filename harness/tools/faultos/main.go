// faultos writes, below the folder it is given, copies of some files of Go's package os
// in which every operation asks a hook first, and prints the overlay which puts them in the places of the originals.
// The hook is os.VerifFault; an operation it refuses fails with the error it gives.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "faultos:", err)
		os.Exit(1)
	}
}

func goTell(args ...string) string {
	c := exec.Command("go", args...)
	c.Stderr = os.Stderr
	b, err := c.Output()
	must(err)
	return strings.TrimSpace(string(b))
}

type edit struct{ old, new string }

func main() {
	out, err := filepath.Abs(os.Args[1])
	must(err)
	must(os.MkdirAll(out, 0755))
	replace := map[string]string{}
	put := func(target, text string) {
		f := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "_"))
		must(os.WriteFile(f, []byte(text), 0644))
		replace[target] = f
	}
	patch := func(target string, edits ...edit) {
		b, err := os.ReadFile(target)
		must(err)
		s := string(b)
		for _, e := range edits {
			if strings.Count(s, e.old) != 1 {
				must(fmt.Errorf("%s: not once in it: %q", target, e.old))
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		put(target, s)
	}
	dir := filepath.Join(goTell("env", "GOROOT"), "src", "os")
	put(filepath.Join(dir, "zz_verif.go"), `package os

import "sync/atomic"

// VerifFault, when set, is asked before every operation on a file or folder; an error it gives is the operation's.
var VerifFault atomic.Pointer[func(op, name string) error]

// VerifTorn says that a write which fails has written half before.
var VerifTorn atomic.Bool

func verifFault(op, name string) error {
	if f := VerifFault.Load(); f != nil {
		return (*f)(op, name)
	}
	return nil
}
`)
	method := func(sig, check, op, ret string) edit {
		head := sig + "\n\tif err := f.checkValid(\"" + check + "\"); err != nil {\n\t\treturn " + ret + "err\n\t}\n"
		return edit{head, head + "\tif e := verifFault(\"" + op + "\", f.name); e != nil {\n\t\treturn " + ret + "f.wrapErr(\"" + check + "\", e)\n\t}\n"}
	}
	torn := func(sig, op, half string) edit {
		head := sig + "\n\tif err := f.checkValid(\"write\"); err != nil {\n\t\treturn 0, err\n\t}\n"
		return edit{head, head + "\tif e := verifFault(\"" + op + "\", f.name); e != nil {\n\t\tn := 0\n\t\tif h := len(b) / 2; h > 0 && VerifTorn.Load() {\n\t\t\tn, _ = " + half +
			"\n\t\t}\n\t\treturn max(n, 0), f.wrapErr(\"write\", e)\n\t}\n"}
	}
	fn := func(sig, op, name, ret string) edit {
		return edit{sig + "\n", sig + "\n\tif e := verifFault(\"" + op + "\", " + name + "); e != nil {\n\t\treturn " + ret + "&PathError{Op: \"" + op + "\", Path: " + name + ", Err: e}\n\t}\n"}
	}
	patch(filepath.Join(dir, "file.go"),
		method("func (f *File) Read(b []byte) (n int, err error) {", "read", "read", "0, "),
		method("func (f *File) ReadAt(b []byte, off int64) (n int, err error) {", "read", "pread", "0, "),
		method("func (f *File) Seek(offset int64, whence int) (ret int64, err error) {", "seek", "seek", "0, "),
		torn("func (f *File) Write(b []byte) (n int, err error) {", "write", "f.write(b[:h])"),
		torn("func (f *File) WriteAt(b []byte, off int64) (n int, err error) {", "pwrite", "f.pwrite(b[:h], off)"),
		method("func (f *File) WriteTo(w io.Writer) (n int64, err error) {", "read", "read", "0, "),
		method("func (f *File) ReadFrom(r io.Reader) (n int64, err error) {", "write", "write", "0, "),
		edit{"\ttestlog.Open(name)\n\tf, err := openFileNolog(", "\tverifOp := \"open\"\n\tif flag&O_CREATE != 0 {\n\t\tverifOp = \"create\"\n\t}\n\tif e := verifFault(verifOp, name); e != nil {\n\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: e}\n\t}\n\ttestlog.Open(name)\n\tf, err := openFileNolog("},
		fn("func Mkdir(name string, perm FileMode) error {", "mkdir", "name", ""),
		fn("func Rename(oldpath, newpath string) error {", "rename", "newpath", ""))
	patch(filepath.Join(dir, "file_posix.go"),
		method("func (f *File) Truncate(size int64) error {", "truncate", "truncate", ""),
		method("func (f *File) Sync() error {", "sync", "sync", ""))
	patch(filepath.Join(dir, "file_unix.go"),
		fn("func Truncate(name string, size int64) error {", "truncate", "name", ""),
		fn("func Remove(name string) error {", "remove", "name", ""))
	patch(filepath.Join(dir, "path.go"), fn("func RemoveAll(path string) error {", "remove", "path", ""))
	patch(filepath.Join(dir, "stat.go"),
		fn("func Stat(name string) (FileInfo, error) {", "stat", "name", "nil, "),
		fn("func Lstat(name string) (FileInfo, error) {", "stat", "name", "nil, "))
	stat := "func (f *File) Stat() (FileInfo, error) {\n\tif err := f.checkValid(\"stat\"); err != nil {\n\t\treturn nil, err\n\t}\n"
	b, err := os.ReadFile(filepath.Join(dir, "stat_unix.go"))
	must(err)
	if !strings.Contains(string(b), stat) {
		stat = "func (f *File) Stat() (FileInfo, error) {\n\tif f == nil {\n\t\treturn nil, ErrInvalid\n\t}\n"
	}
	patch(filepath.Join(dir, "stat_unix.go"), edit{stat, stat + "\tif e := verifFault(\"stat\", f.name); e != nil {\n\t\treturn nil, &PathError{Op: \"stat\", Path: f.name, Err: e}\n\t}\n"})
	patch(filepath.Join(dir, "dir.go"), fn("func ReadDir(name string) ([]DirEntry, error) {", "readdir", "name", "nil, "))
	enc := json.NewEncoder(os.Stdout)
	must(enc.Encode(map[string]interface{}{"Replace": replace}))
}
