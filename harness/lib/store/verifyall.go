package store

import (
	"fmt"
	"os"

	"verifharness/kit"
)

// OpenRam opens a store in memory, which asks for a confirmation on the standard input.
func OpenRam(path string, delegated bool) (View, error) {
	r, w, err := os.Pipe()
	kit.Must(err)
	fmt.Fprintln(w, "128GB")
	w.Close()
	old := os.Stdin
	os.Stdin = r
	defer func() { os.Stdin = old; r.Close() }()
	return OpenReadOnly(path, delegated, true, true)
}

// VerifyAll compares a store, opened in each way, with the model.
func VerifyAll(t *kit.T, what, dir string, m *Model, o Opts, delegated, ram bool) {
	for _, hashesInRam := range []bool{false, true} {
		v, err := OpenReadOnly(dir, delegated, false, hashesInRam)
		t.NoErr(err, what+" OpenReadOnly")
		Verify(t, fmt.Sprintf("%s, read only, hashes in memory %v", what, hashesInRam), m, v, o)
	}
	if ram {
		v, err := OpenRam(dir, delegated)
		t.NoErr(err, what+" OpenReadOnly in memory")
		Verify(t, what+", in memory", m, v, o)
		t.Count("stores_in_memory", 1)
	}
}
