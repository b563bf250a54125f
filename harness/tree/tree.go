// Package tree compares directory trees before and after an operation.
package tree

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/amarin/gomorphy/verif/pbt"
)

// Snapshot describes everything below top (top itself as "."): kind, permissions, contents.
func Snapshot(top string) map[string]string {
	res := map[string]string{}
	pbt.Must(filepath.Walk(top, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(top, p)
		if err != nil {
			return err
		}
		switch {
		case info.IsDir():
			res[rel] = "directory"
		case info.Mode()&os.ModeSymlink != 0:
			to, err := os.Readlink(p)
			if err != nil {
				return err
			}
			res[rel] = "link to " + to
		case info.Mode().IsRegular():
			data, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			res[rel] = fmt.Sprintf("file of %d bytes %x", len(data), sha256.Sum256(data))
		default:
			res[rel] = info.Mode().String()
		}
		return nil
	}))
	return res
}

// Diff names what was created, changed or removed, apart from what is allowed.
func Diff(before, after map[string]string, allowed ...string) (res []string) {
	skip := map[string]bool{}
	for _, a := range allowed {
		skip[filepath.Clean(a)] = true
	}
	for p, d := range after {
		switch old, ok := before[p]; {
		case skip[p] || ok && old == d:
		case !ok:
			res = append(res, "created "+p+" ("+d+")")
		default:
			res = append(res, "changed "+p+" ("+old+" to "+d+")")
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok && !skip[p] {
			res = append(res, "removed "+p)
		}
	}
	sort.Strings(res)
	return res
}

// In runs f with dir as working directory.
func In(dir string, f func()) {
	old, err := os.Getwd()
	pbt.Must(err)
	pbt.Must(os.Chdir(dir))
	defer func() { pbt.Must(os.Chdir(old)) }()
	f()
}
