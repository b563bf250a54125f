// Command storage decides the properties of pkg/storage: S01..S07.
package main

import (
	"io"

	"github.com/amarin/gomorphy/pkg/storage"
	"github.com/amarin/gomorphy/verif/pbt"
)

func main() {
	pbt.Main(s01(), s02(), s03(), s04(), s05(), s06(), s07())
}

// set is the view of Set8 and Set16 the checks use: ids as ints.
type width struct {
	bits    int
	maxID   int // greatest id
	maxLen  int // greatest length the codec can express
	idSize  int // bytes of an id and of the count
	write   func(ids []int, w io.Writer) (n int64, err error, after []int)
	read    func(prev []int, r io.Reader) (ids []int, n int64, err error)
	equal   func(a, b []int) (res bool, a2, b2 []int)
	sort    func(a []int) []int
	swap    func(a []int, i, j int) []int
	less    func(a []int, i, j int) bool
	length  func(a []int) int
	iface   func(a []int) (sorted []int)            // through sort.Interface
	readAll func(encoded [][]byte) ([][]int, error) // into sets which are all extended afterwards
	newTab  func(sets [][]int) registry
	newColl func(columns [][][]int) registry
}

// registry is the view of Table8/16 and Collection8x8/16 the checks use.
type registry interface {
	index(ids []int) uint32
	find(ids []int) (uint32, bool)
	get(id uint32) ([]int, bool)
}

func to8(a []int) storage.Set8 {
	if a == nil {
		return nil
	}
	s := make(storage.Set8, len(a))
	for i, v := range a {
		s[i] = storage.ID8(v)
	}
	return s
}

func from8(s storage.Set8) []int {
	if s == nil {
		return nil
	}
	a := make([]int, len(s))
	for i, v := range s {
		a[i] = int(v)
	}
	return a
}

func to16(a []int) storage.Set16 {
	if a == nil {
		return nil
	}
	s := make(storage.Set16, len(a))
	for i, v := range a {
		s[i] = storage.ID16(v)
	}
	return s
}

func from16(s storage.Set16) []int {
	if s == nil {
		return nil
	}
	a := make([]int, len(s))
	for i, v := range s {
		a[i] = int(v)
	}
	return a
}

// longer returns a set after appending to it, as its owner may: whatever lies behind it is no other one's.
func longer[T ~[]E, E ~uint8 | ~uint16](s T) T {
	if s != nil {
		_ = append(s, 0x55, 0x56, 0x57)
	}
	return s
}

type tab8 struct{ t storage.Table8 }

func (x *tab8) index(ids []int) uint32 { return uint32(x.t.Index(to8(ids))) }
func (x *tab8) find(ids []int) (uint32, bool) {
	id, ok := x.t.Find(to8(ids))
	return uint32(id), ok
}
func (x *tab8) get(id uint32) ([]int, bool) {
	s, ok := x.t.Get(storage.ID8(id))
	return from8(longer(s)), ok
}

type tab16 struct{ t storage.Table16 }

func (x *tab16) index(ids []int) uint32 { return uint32(x.t.Index(to16(ids))) }
func (x *tab16) find(ids []int) (uint32, bool) {
	id, ok := x.t.Find(to16(ids))
	return uint32(id), ok
}
func (x *tab16) get(id uint32) ([]int, bool) {
	s, ok := x.t.Get(storage.ID16(id))
	return from16(longer(s)), ok
}

type coll8 struct{ c storage.Collection8x8 }

func (x *coll8) index(ids []int) uint32 { return uint32(x.c.Index(to8(ids))) }
func (x *coll8) find(ids []int) (uint32, bool) {
	id, ok := x.c.Find(to8(ids))
	return uint32(id), ok
}
func (x *coll8) get(id uint32) ([]int, bool) {
	s, ok := x.c.Get(storage.ID16(id))
	return from8(longer(s)), ok
}

type coll16 struct{ c storage.Collection16 }

func (x *coll16) index(ids []int) uint32 { return uint32(x.c.Index(to16(ids))) }
func (x *coll16) find(ids []int) (uint32, bool) {
	id, ok := x.c.Find(to16(ids))
	return uint32(id), ok
}
func (x *coll16) get(id uint32) ([]int, bool) {
	s, ok := x.c.Get(storage.ID32(id))
	return from16(longer(s)), ok
}
