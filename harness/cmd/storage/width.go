package main

import (
	"bytes"
	"io"
	"sort"

	"github.com/amarin/gomorphy/pkg/storage"
	"github.com/amarin/gomorphy/verif/pbt"
)

// unchanged fails the case if a value kept from before a read was changed by it.
func unchanged(kept, before []int) {
	if !same(kept, before) {
		panic(pbt.Errf("reading into a variable changed the set %v kept from before to %v", short(before), short(kept)))
	}
}

var widths = map[int]*width{
	8: {
		bits: 8, maxID: 255, maxLen: 255, idSize: 1,
		write: func(ids []int, w io.Writer) (int64, error, []int) {
			s := to8(ids)
			n, err := s.WriteTo(w)
			return n, err, from8(s)
		},
		read: func(prev []int, r io.Reader) ([]int, int64, error) {
			s := to8(prev)
			kept := s
			n, err := s.ReadFrom(r)
			unchanged(from8(kept), prev)
			return from8(s), n, err
		},
		equal: func(a, b []int) (bool, []int, []int) {
			x, y := to8(a), to8(b)
			res := x.EqualTo(y)
			return res, from8(x), from8(y)
		},
		sort:   func(a []int) []int { s := to8(a); s.Sort(); return from8(s) },
		swap:   func(a []int, i, j int) []int { s := to8(a); s.Swap(i, j); return from8(s) },
		less:   func(a []int, i, j int) bool { return to8(a).Less(i, j) },
		length: func(a []int) int { return to8(a).Len() },
		iface:  func(a []int) []int { s := to8(a); sort.Stable(s); return from8(s) },
		readAll: func(encoded [][]byte) (res [][]int, err error) {
			sets := make([]storage.Set8, len(encoded))
			for i, b := range encoded {
				if _, err = sets[i].ReadFrom(bytes.NewReader(b)); err != nil {
					return nil, err
				}
			}
			for _, s := range sets {
				longer(s)
			}
			for _, s := range sets {
				res = append(res, from8(s))
			}
			return res, nil
		},
		newTab: func(sets [][]int) registry {
			t := make(storage.Table8, 0)
			for _, s := range sets {
				t = append(t, to8(s))
			}
			return &tab8{t}
		},
		newColl: func(cols [][][]int) registry {
			c := make(storage.Collection8x8, 0)
			for _, col := range cols {
				t := make(storage.Table8, 0)
				for _, s := range col {
					t = append(t, to8(s))
				}
				c = append(c, t)
			}
			return &coll8{c}
		},
	},
	16: {
		bits: 16, maxID: 65535, maxLen: 65535, idSize: 2,
		write: func(ids []int, w io.Writer) (int64, error, []int) {
			s := to16(ids)
			n, err := s.WriteTo(w)
			return n, err, from16(s)
		},
		read: func(prev []int, r io.Reader) ([]int, int64, error) {
			s := to16(prev)
			kept := s
			n, err := s.ReadFrom(r)
			unchanged(from16(kept), prev)
			return from16(s), n, err
		},
		equal: func(a, b []int) (bool, []int, []int) {
			x, y := to16(a), to16(b)
			res := x.EqualTo(y)
			return res, from16(x), from16(y)
		},
		sort:   func(a []int) []int { s := to16(a); s.Sort(); return from16(s) },
		swap:   func(a []int, i, j int) []int { s := to16(a); s.Swap(i, j); return from16(s) },
		less:   func(a []int, i, j int) bool { return to16(a).Less(i, j) },
		length: func(a []int) int { return to16(a).Len() },
		iface:  func(a []int) []int { s := to16(a); sort.Stable(s); return from16(s) },
		readAll: func(encoded [][]byte) (res [][]int, err error) {
			sets := make([]storage.Set16, len(encoded))
			for i, b := range encoded {
				if _, err = sets[i].ReadFrom(bytes.NewReader(b)); err != nil {
					return nil, err
				}
			}
			for _, s := range sets {
				longer(s)
			}
			for _, s := range sets {
				res = append(res, from16(s))
			}
			return res, nil
		},
		newTab: func(sets [][]int) registry {
			t := make(storage.Table16, 0)
			for _, s := range sets {
				t = append(t, to16(s))
			}
			return &tab16{t}
		},
		newColl: func(cols [][][]int) registry {
			c := make(storage.Collection16, 0)
			for _, col := range cols {
				t := make(storage.Table16, 0)
				for _, s := range col {
					t = append(t, to16(s))
				}
				c = append(c, t)
			}
			return &coll16{c}
		},
	},
}
