// Package fdmon looks at which files below a folder this process has open or mapped.
package fdmon

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

// Hold keeps the garbage collector from closing forgotten files, and gives a function which lets it again.
func Hold() func() {
	old := debug.SetGCPercent(-1)
	lim := debug.SetMemoryLimit(2 << 30) // but not at the price of all memory
	return func() {
		debug.SetGCPercent(old)
		debug.SetMemoryLimit(lim)
	}
}

// Open lists the files below dir which are open ("fd ...") or mapped ("map ...").
func Open(dir string) []string {
	var l []string
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(to, dir+"/") {
			l = append(l, "fd "+strings.TrimPrefix(to, dir+"/"))
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		if k := strings.Index(line, dir+"/"); k >= 0 {
			l = append(l, "map "+line[k+len(dir)+1:])
		}
	}
	sort.Strings(l)
	return l
}

// Writable lists the files below dir which are open for writing, or mapped so that writing changes them.
func Writable(dir string) []string {
	var l []string
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || !strings.HasPrefix(to, dir+"/") {
			continue
		}
		b, err := os.ReadFile("/proc/self/fdinfo/" + e.Name())
		if err != nil {
			continue // closed in the meantime
		}
		for _, line := range strings.Split(string(b), "\n") {
			if w := strings.Fields(line); len(w) == 2 && w[0] == "flags:" {
				if fl, err := strconv.ParseInt(w[1], 8, 64); err == nil && fl&3 != 0 {
					l = append(l, "fd "+strings.TrimPrefix(to, dir+"/"))
				}
			}
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		k := strings.Index(line, dir+"/")
		if w := strings.Fields(line); k >= 0 && len(w) > 1 && len(w[1]) == 4 && w[1][1] == 'w' && w[1][3] == 's' {
			l = append(l, "map "+line[k+len(dir)+1:])
		}
	}
	sort.Strings(l)
	return l
}

// Count counts the file descriptors of the process.
func Count() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(es) - 1
}

// Short shows a list.
func Short(l []string) string {
	if len(l) > 12 {
		return fmt.Sprint(l[:12], " ... and ", len(l)-12, " more")
	}
	return fmt.Sprint(l)
}
