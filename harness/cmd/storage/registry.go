package main

import (
	"fmt"
	"sort"

	"github.com/amarin/gomorphy/pkg/storage"
	"github.com/amarin/gomorphy/verif/pbt"

	"pgregory.net/rapid"
)

// Operations on a registry.
const (
	opIndex  = iota // register pool set Set, its ids permuted by Perm
	opFind          // search pool set Set in ascending order
	opGet           // retrieve id Arg
	opFindX         // search a relative of pool set Set: derived by Perm
	opEmpty         // register an empty set: must panic
	opFresh         // register a set never used before
	opTooBig        // collections: register a set whose length no id expresses: must panic
	opKinds
)

type regOp struct {
	K    int
	Set  int    `json:",omitempty"`
	Perm int    `json:",omitempty"`
	Arg  uint32 `json:",omitempty"`
}

type regCase struct {
	Width   int
	Coll    bool
	Len     int   // tables: length of the sets
	Prefill int   // sets in the registry before the history
	Columns []int // collections: lengths of the columns prefilled
	Pool    []setSpec
	Ops     []regOp
}

// fillSet makes the k-th prefilled set of a length: in ascending order, all different.
func fillSet(w *width, length, k int) []int {
	res := make([]int, length)
	if length == 1 {
		res[0] = k
		return res
	}
	a, b, rest := k>>4, 16+(k&15), 200
	if w.bits == 16 {
		a, b, rest = k>>8, 256+(k&255), 600
	}
	res[0], res[1] = a, b
	for i := 2; i < length; i++ {
		res[i] = rest
	}
	return res
}

func sorted(ids []int) []int {
	res := append([]int{}, ids...)
	sort.Ints(res)
	return res
}

func permuted(ids []int, perm int) []int {
	res := append([]int{}, ids...)
	x := uint32(perm)*2654435761 + 1
	switch perm % 4 {
	case 0: // as it is
	case 1: // descending
		sort.Sort(sort.Reverse(sort.IntSlice(res)))
	default:
		for i := len(res) - 1; i > 0; i-- {
			x = x*1664525 + 1013904223
			j := int(x>>8) % (i + 1)
			res[i], res[j] = res[j], res[i]
		}
	}
	return res
}

func key(ids []int) string {
	b := make([]byte, 0, 2*len(ids))
	for _, v := range ids {
		b = append(b, byte(v>>8), byte(v))
	}
	return string(b)
}

// regModel is the reference registry: canonical sets in order of registration, per length.
type regModel struct {
	w     *width
	coll  bool
	ids   map[string]uint32
	sets  map[int][][]int // by length
	order []uint32        // ids in order of registration, prefilled ones left out
}

func (m *regModel) id(length, n int) uint32 {
	if !m.coll {
		return uint32(n)
	}
	return uint32(length-1)<<m.w.bits | uint32(n)
}

func (m *regModel) register(canonical []int) (id uint32, full bool) {
	if id, known := m.ids[key(canonical)]; known {
		return id, false
	}
	n := len(m.sets[len(canonical)])
	if n > m.w.maxID {
		return 0, true
	}
	id = m.id(len(canonical), n)
	m.ids[key(canonical)] = id
	m.sets[len(canonical)] = append(m.sets[len(canonical)], canonical)
	m.order = append(m.order, id)
	return id, false
}

func (m *regModel) get(id uint32) ([]int, bool) {
	length, n := 0, int(id)
	if m.coll {
		length, n = int(id>>m.w.bits)+1, int(id)&m.w.maxID
	} else {
		for l := range m.sets {
			length = l
		}
	}
	if n >= len(m.sets[length]) {
		return nil, false
	}
	return m.sets[length][n], true
}

// genPool makes sets to register, of the length given unless for a collection, and two a hash does not tell apart.
func genPool(t *rapid.T, w *width, coll bool, length int, alike *setSpec) []setSpec {
	n := rapid.IntRange(1, 7).Draw(t, "pool")
	vals := rapid.SampledFrom([][]int{{0, 1}, {0, 1, 2, 3}, {5, 6, 7, 255}, {0, w.maxID / 2, w.maxID}, nil}).Draw(t, "values")
	idGen := genID(w)
	if vals != nil {
		idGen = rapid.SampledFrom(vals)
	}
	var pool []setSpec
	for i := 0; i < n; i++ {
		l := length
		if coll {
			if rapid.IntRange(0, 9).Draw(t, "odd length") == 0 {
				lens := []int{127, 128, 129, 254, 255, 256}
				if w.bits == 16 {
					lens = []int{254, 255, 256, 257, 258, 512, 513}
				}
				pool = append(pool, setSpec{Len: rapid.SampledFrom(lens).Draw(t, "len"), Seed: rapid.Uint32Range(0, 9).Draw(t, "seed")})
				continue
			}
			l = rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 9)).Draw(t, "len")
		} else if l > 20 {
			pool = append(pool, setSpec{Len: l, Seed: rapid.Uint32Range(0, 9).Draw(t, "seed")})
			continue
		}
		pool = append(pool, setSpec{IDs: rapid.SliceOfN(idGen, l, l).Draw(t, "set")})
	}
	if alike != nil {
		other := *alike
		other.Second = !other.Second
		pool = append(pool[:len(pool)-1], *alike, other)
	}
	return pool
}

func genReg(coll bool) func(t *rapid.T) regCase {
	return func(t *rapid.T) regCase {
		c := regCase{Width: genWidth(t), Coll: coll}
		w := widths[c.Width]
		if coll {
			c.Len = 1
			if n := rapid.IntRange(0, 5).Draw(t, "prefilled columns"); n > 2 {
				c.Columns = rapid.SliceOfNDistinct(rapid.OneOf(rapid.IntRange(1, 4), rapid.SampledFrom([]int{5, 9, 200, 255, 256})), 1, n-2, rapid.ID[int]).Draw(t, "columns")
			}
		} else {
			c.Len = rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 12), rapid.SampledFrom([]int{100, 255, 256, 300})).Draw(t, "len")
		}
		switch rapid.IntRange(0, 9).Draw(t, "prefill") {
		case 0, 1, 2:
			if w.bits == 8 {
				c.Prefill = rapid.IntRange(250, 256).Draw(t, "almost full")
			} else {
				c.Prefill = rapid.SampledFrom([]int{254, 255, 256, 257, 300}).Draw(t, "over a byte")
			}
		case 3:
			c.Prefill = rapid.IntRange(1, 130).Draw(t, "some")
		}
		var alike *setSpec
		if rapid.IntRange(0, 4).Draw(t, "alike") == 0 {
			a := genAlike(t, "alike")
			if alike = &a; !coll {
				c.Len = len(a.ids(w))
			}
		}
		c.Pool = genPool(t, w, coll, c.Len, alike)
		op := rapid.Custom(func(t *rapid.T) regOp {
			o := regOp{K: rapid.SampledFrom([]int{opIndex, opIndex, opIndex, opIndex, opFind, opFind, opGet, opGet, opFindX, opFresh, opFresh, opEmpty, opTooBig}).Draw(t, "op")}
			switch o.K {
			case opIndex, opFindX:
				o.Set = rapid.IntRange(0, 7).Draw(t, "set")
				o.Perm = rapid.IntRange(0, 40).Draw(t, "perm")
			case opFind:
				o.Set = rapid.IntRange(0, 7).Draw(t, "set")
			case opGet:
				o.Arg = genRegID(w, coll).Draw(t, "id")
			case opTooBig:
				o.Perm = rapid.IntRange(0, 3).Draw(t, "by")
			}
			return o
		})
		c.Ops = rapid.SliceOfN(op, 1, 30).Draw(t, "ops")
		return c
	}
}

func genRegID(w *width, coll bool) *rapid.Generator[uint32] {
	lo := rapid.OneOf(rapid.Uint32Range(0, 8), rapid.SampledFrom([]uint32{127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 32767, 32768, 65534, 65535}))
	return rapid.Custom(func(t *rapid.T) uint32 {
		id := lo.Draw(t, "lower") & uint32(w.maxID)
		if coll {
			id |= (lo.Draw(t, "upper") & uint32(w.maxID)) << w.bits
		}
		return id
	})
}

func relative(ids []int, how int, w *width) []int {
	res := append([]int{}, ids...)
	switch how % 6 {
	case 0: // extension
		res = append(res, w.maxID)
	case 1: // prefix
		res = res[:len(res)-1]
	case 2: // one position changed
		res[how%len(res)] = (res[how%len(res)] + 1) & w.maxID
	case 3: // much longer
		for i := 0; i < 3+how; i++ {
			res = append(res, w.maxID)
		}
	case 4:
		res = nil
	case 5: // one bit of one position changed
		res[how%len(res)] ^= 1 << (how % w.bits)
	}
	return sorted(res)
}

func regRun(ctx *pbt.Ctx, c regCase) error {
	w := widths[c.Width]
	m := &regModel{w: w, coll: c.Coll, ids: map[string]uint32{}, sets: map[int][][]int{}}
	cols := c.Columns
	if !c.Coll {
		cols = []int{c.Len}
	}
	deepest := 0
	for _, l := range cols {
		if l > deepest {
			deepest = l
		}
	}
	content := make([][][]int, deepest)
	for _, l := range cols {
		for k := 0; k < c.Prefill; k++ {
			if l == 1 && k > w.maxID {
				break
			}
			s := fillSet(w, l, k)
			content[l-1] = append(content[l-1], s)
			m.ids[key(s)] = m.id(l, k)
			m.sets[l] = append(m.sets[l], s)
		}
	}
	var reg registry
	if c.Coll {
		reg = w.newColl(content)
	} else {
		reg = w.newTab(content[c.Len-1])
	}
	ctx.Label("width %d", c.Width)
	ctx.LabelIf(c.Prefill > 0, "prefilled")

	pool := make([][]int, len(c.Pool))
	for i, s := range c.Pool {
		pool[i] = s.ids(w)
	}
	fresh := 0
	nextFresh := func() []int {
		for {
			fresh++
			l := c.Len
			if c.Coll {
				l = len(pool[fresh%len(pool)])
			}
			if l == 1 {
				return []int{(fresh*37 + 11) & w.maxID}
			}
			res := make([]int, l)
			for i := range res {
				res[i] = 3
			}
			res[0], res[l-1] = fresh&w.maxID, fresh>>w.bits
			return res
		}
	}
	verify := func(after string) error {
		for _, id := range m.order {
			want, _ := m.get(id)
			if got, ok := reg.get(id); !ok || !same(got, want) {
				return pbt.Errf("after %s: id %#x gives %v (found: %v), registered as %v", after, id, short(got), ok, short(want))
			}
			if got, ok := reg.find(want); !ok || got != id {
				return pbt.Errf("after %s: %v found: %v with id %#x, registered under %#x", after, short(want), ok, got, id)
			}
		}
		return nil
	}
	// prefilled sets, and whatever lies behind the last id of each length
	verifyAll := func() error {
		for l, sets := range m.sets {
			for k := range sets {
				if len(sets) > 400 && k%101 != 0 && k < len(sets)-20 && k > 20 {
					continue
				}
				id := m.id(l, k)
				if got, ok := reg.get(id); !ok || !same(got, sets[k]) {
					return pbt.Errf("at the end: id %#x gives %v (found: %v), registered as %v", id, short(got), ok, short(sets[k]))
				}
				if len(sets) > 400 && k%1009 != 0 && k < len(sets)-2 {
					continue
				}
				if got, ok := reg.find(sets[k]); !ok || got != id {
					return pbt.Errf("at the end: %v found: %v with id %#x, registered under %#x", short(sets[k]), ok, got, id)
				}
			}
			for k := len(sets); k < len(sets)+3 && k <= w.maxID; k++ {
				if got, ok := reg.get(m.id(l, k)); ok {
					return pbt.Errf("at the end: unused id %#x gives %v", m.id(l, k), short(got))
				}
			}
		}
		return nil
	}
	registered := 0
	register := func(i int, ids []int) error {
		canonical := sorted(ids)
		_, known := m.ids[key(canonical)]
		want, full := m.register(canonical)
		var got uint32
		panicked, what := pbt.Catch(func() { got = reg.index(ids) })
		registered++
		ctx.LabelIf(known, "registered again")
		ctx.LabelIf(full, "ids used up")
		switch {
		case full && !panicked:
			return pbt.Errf("op %d: all %d ids of length %d are taken, yet the new set %v was given id %#x", i, w.maxID+1, len(ids), short(ids), got)
		case full:
			return nil
		case panicked:
			return pbt.Errf("op %d: registering %v panicked: %v", i, short(ids), what)
		case got != want:
			return pbt.Errf("op %d: %v registered as id %#x, expected %#x (known before: %v)", i, short(ids), got, want, known)
		}
		return nil
	}
	for i, o := range c.Ops {
		set := pool[o.Set%len(pool)]
		name := ""
		ctx.Turn()
		ctx.Exec(1)
		switch o.K {
		case opIndex, opFresh:
			ids := permuted(set, o.Perm)
			if o.K == opFresh {
				ids = nextFresh()
			}
			name = fmt.Sprintf("op %d: registering %v", i, short(ids))
			if err := register(i, ids); err != nil {
				return err
			}
		case opFind, opFindX:
			ids := sorted(set)
			if o.K == opFindX {
				ids = relative(ids, o.Perm, w)
			}
			name = fmt.Sprintf("op %d: searching %v", i, short(ids))
			want, known := m.ids[key(ids)]
			known = known && len(ids) > 0
			got, ok := reg.find(ids)
			if ok != known || ok && got != want {
				return pbt.Errf("%s: found: %v with id %#x, expected %v with %#x", name, ok, got, known, want)
			}
			ctx.LabelIf(!known, "search of an unregistered set")
		case opGet:
			name = fmt.Sprintf("op %d: retrieving %#x", i, o.Arg)
			want, known := m.get(o.Arg)
			got, ok := reg.get(o.Arg)
			if ok != known || ok && !same(got, want) {
				return pbt.Errf("%s: found: %v with %v, expected %v with %v", name, ok, short(got), known, short(want))
			}
			ctx.LabelIf(!known, "unknown id")
		case opEmpty:
			name = fmt.Sprintf("op %d: registering an empty set", i)
			for _, empty := range [][]int{nil, {}} {
				var got uint32
				if panicked, _ := pbt.Catch(func() { got = reg.index(empty) }); !panicked {
					return pbt.Errf("%s gave id %#x", name, got)
				}
			}
			if got, ok := reg.find(nil); ok {
				return pbt.Errf("op %d: an empty set is found as %#x", i, got)
			}
		case opTooBig:
			if !c.Coll || w.bits == 16 && (i%7 != 0 || o.Perm != 0) {
				continue // 65537 ids and more: rarely
			}
			ids := make([]int, w.maxID+2+o.Perm*o.Perm*o.Perm*30)
			name = fmt.Sprintf("op %d: registering %d ids", i, len(ids))
			var got uint32
			if panicked, _ := pbt.Catch(func() { got = reg.index(ids) }); !panicked {
				return pbt.Errf("%s gave id %#x", name, got)
			}
			if got, ok := reg.find(ids); ok {
				return pbt.Errf("op %d: %d ids are found as %#x", i, len(ids), got)
			}
			ctx.Label("length no id expresses")
		}
		if err := verify(name); err != nil {
			return err
		}
	}
	ctx.NonTrivialIf(registered >= 2 && len(m.order) >= 1)
	ctx.LabelIf(len(m.order) > 5, "over 5 new sets")
	return verifyAll()
}

// fullCase drives a registry over its last free id.
type fullCase struct {
	Width, Len int
	Coll       bool
}

func fullRun(ctx *pbt.Ctx, c fullCase) error {
	w := widths[c.Width]
	rc := regCase{Width: c.Width, Coll: c.Coll, Len: c.Len, Prefill: w.maxID - 1, Columns: []int{c.Len}}
	// pool set 0 is new, 1 is the first prefilled one, 2 the last
	rc.Pool = []setSpec{{IDs: make([]int, c.Len)}, {IDs: fillSet(w, c.Len, 0)}, {IDs: fillSet(w, c.Len, w.maxID-2)}}
	for i := range rc.Pool[0].IDs {
		rc.Pool[0].IDs[i] = w.maxID
	}
	if c.Coll { // another length stays free
		rc.Pool = append(rc.Pool, setSpec{IDs: []int{1, 2, 3, 4, 5}})
	}
	rc.Ops = []regOp{
		{K: opIndex}, {K: opFresh}, {K: opFresh}, {K: opFresh}, {K: opFresh}, {K: opFresh},
		{K: opIndex, Perm: 1}, {K: opIndex, Set: 1, Perm: 2}, {K: opIndex, Set: 2, Perm: 1}, {K: opIndex, Set: 3},
		{K: opGet, Arg: 0}, {K: opGet, Arg: uint32(w.maxID)}, {K: opFind, Set: 0}, {K: opFind, Set: 2}, {K: opEmpty}, {K: opFresh},
	}
	return regRun(ctx, rc)
}

const regRule = "cases are a registry, filled with 0 to 256 sets or over 256, or up to its last id, and a history of up to 30 registrations (from a small pool, permuted), " +
	"searches (of relatives too) and retrievals; every id handed out is retrieved and searched after every step; non-trivial: at least two registrations and one new set"

func s04() pbt.Property {
	return pbt.Property{
		ID: "S04", Rule: regRule, Shards: 4,
		Assumptions: []string{
			"sets are compared as the code does, as sequences of equal length after sorting, repeated ids included",
			"the caller does not change a set after registering it; searches are given ascending sets, as documented",
		},
		Facets: []pbt.Facet{
			pbt.Rapid("histories", 30000, 1500000, genReg(false), regRun),
			pbt.Enum("small", smallHistories(false), regRun),
			pbt.Enum("full", func(tier string, yield func(fullCase) bool) {
				for _, l := range []int{2, 3, 1, 5} {
					for _, bits := range []int{8, 16} {
						if !yield(fullCase{bits, l, false}) {
							return
						}
					}
				}
			}, fullRun),
		},
	}
}

func s05() pbt.Property {
	return pbt.Property{
		ID: "S05", Rule: regRule, Shards: 4,
		Assumptions: []string{
			"sets are compared as the code does, as sequences of equal length after sorting, repeated ids included",
			"the caller does not change a set after registering it; searches are given ascending sets, as documented",
		},
		Facets: []pbt.Facet{
			pbt.Rapid("histories", 30000, 1500000, genReg(true), regRun),
			pbt.Enum("small", smallHistories(true), regRun),
			pbt.Enum("lengths", func(tier string, yield func(lengthsCase) bool) {
				for _, bits := range []int{8, 16} {
					for _, down := range []bool{false, true} {
						if !yield(lengthsCase{bits, down}) {
							return
						}
					}
				}
			}, lengthsRun),
			pbt.Enum("full", func(tier string, yield func(fullCase) bool) {
				for _, l := range []int{2, 3, 1, 7} {
					for _, bits := range []int{8, 16} {
						if !yield(fullCase{bits, l, true}) {
							return
						}
					}
				}
			}, fullRun),
		},
	}
}

// lengthsCase registers two sets of every length the id expresses (8-bit), or of edge lengths.
type lengthsCase struct {
	Width int
	Down  bool
}

func lengthsRun(ctx *pbt.Ctx, c lengthsCase) error {
	w := widths[c.Width]
	ctx.NonTrivial()
	var lens []int
	if c.Width == 8 {
		for l := 1; l <= 256; l++ {
			lens = append(lens, l)
		}
	} else {
		lens = []int{1, 2, 127, 128, 255, 256, 257, 258, 511, 512, 4096, 32768, 32769, 65279, 65280, 65281, 65535, 65536}
	}
	if c.Down {
		sort.Sort(sort.Reverse(sort.IntSlice(lens)))
	}
	reg := w.newColl(nil)
	type entry struct {
		id  uint32
		set []int
	}
	var entries []entry
	for round := 0; round < 2; round++ {
		for _, l := range lens {
			s := make([]int, l)
			for i := range s {
				s[i] = (l + round) & w.maxID
			}
			s[0] = round
			s = sorted(s)
			if got, ok := reg.find(s); ok {
				return pbt.Errf("%d ids, not registered, found as %#x", l, got)
			}
			want := uint32(l-1)<<w.bits | uint32(round)
			got := reg.index(permuted(s, 1))
			ctx.Exec(2)
			if got != want {
				return pbt.Errf("set %d of length %d registered as %#x, expected %#x", round, l, got, want)
			}
			entries = append(entries, entry{want, s})
		}
	}
	for _, e := range entries {
		ctx.Exec(2)
		if got, ok := reg.get(e.id); !ok || !same(got, e.set) {
			return pbt.Errf("id %#x gives %v (found: %v), registered as %v", e.id, short(got), ok, short(e.set))
		}
		if got, ok := reg.find(e.set); !ok || got != e.id {
			return pbt.Errf("%v found: %v with id %#x, registered under %#x", short(e.set), ok, got, e.id)
		}
	}
	return nil
}

// smallHistories enumerates all histories of up to three registrations of small sets, each followed
// by a search.
func smallHistories(coll bool) func(string, func(regCase) bool) {
	return func(tier string, yield func(regCase) bool) {
		for _, bits := range []int{8, 16} {
			hi := widths[bits].maxID
			var sets [][]int
			for _, s := range tuples([]int{0, 1, hi}, 2) {
				if len(s) == 2 || coll && len(s) == 1 {
					sets = append(sets, s)
				}
			}
			for a := range sets {
				for b := range sets {
					for d := range sets {
						var ops []regOp
						for _, k := range []int{a, b, d} {
							ops = append(ops, regOp{K: opFind, Set: k}, regOp{K: opIndex, Set: k}, regOp{K: opFind, Set: (k + 1) % len(sets)})
						}
						c := regCase{Width: bits, Coll: coll, Len: 2, Ops: ops}
						for _, s := range sets {
							c.Pool = append(c.Pool, setSpec{IDs: s})
						}
						if !yield(c) {
							return
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- S06

type s06Pair struct{ Hi, Lo uint32 }

func s06() pbt.Property {
	return pbt.Property{
		ID:     "S06",
		Rule:   "8+8 bits: all 65536 pairs and values; 16+16 bits: all pairs of 200 boundary halves, and random pairs; all cases are non-trivial except pair (0,0)",
		Shards: 2,
		Facets: []pbt.Facet{
			pbt.Enum("8+8", func(tier string, yield func(uint32) bool) {
				for hi := uint32(0); hi < 256; hi++ {
					if !yield(hi) {
						return
					}
				}
			}, func(ctx *pbt.Ctx, hi uint32) error {
				ctx.NonTrivialIf(hi > 0)
				for lo := uint32(0); lo < 256; lo++ {
					ctx.Exec(1)
					v := storage.Combine8(storage.ID8(hi), storage.ID8(lo))
					if uint32(v) != hi*256+lo {
						return pbt.Errf("combining %#x and %#x gives %#x", hi, lo, uint32(v))
					}
					if uint32(v.Upper()) != hi || uint32(v.Lower()) != lo {
						return pbt.Errf("%#x taken apart gives %#x and %#x", uint32(v), uint32(v.Upper()), uint32(v.Lower()))
					}
					if back := storage.Combine8(v.Upper(), v.Lower()); back != v {
						return pbt.Errf("%#x taken apart and combined gives %#x", uint32(v), uint32(back))
					}
					if uint32(v.Upper().Uint8()) != hi || uint32(v.Lower().Uint8()) != lo {
						return pbt.Errf("%#x: plain values of the halves are %#x and %#x", uint32(v), v.Upper().Uint8(), v.Lower().Uint8())
					}
				}
				return nil
			}),
			pbt.Enum("16+16-boundaries", func(tier string, yield func(uint32) bool) {
				for _, hi := range halves16() {
					if !yield(hi) {
						return
					}
				}
			}, func(ctx *pbt.Ctx, hi uint32) error {
				ctx.NonTrivialIf(hi > 0)
				for _, lo := range halves16() {
					ctx.Exec(1)
					if err := check16(s06Pair{hi, lo}); err != nil {
						return err
					}
				}
				return nil
			}),
			pbt.Rapid("16+16", 20000, 1000000, func(t *rapid.T) s06Pair {
				half := rapid.OneOf(rapid.Uint32Range(0, 65535), rapid.Map(rapid.IntRange(0, 15), func(n int) uint32 { return 1 << n }))
				return s06Pair{half.Draw(t, "upper"), half.Draw(t, "lower")}
			}, func(ctx *pbt.Ctx, c s06Pair) error {
				ctx.NonTrivialIf(c.Hi > 0 || c.Lo > 0)
				ctx.Exec(1)
				return check16(c)
			}),
		},
	}
}

func halves16() []uint32 {
	var res []uint32
	for v := uint32(0); v < 36; v++ {
		res = append(res, v, 65535-v)
	}
	for n := 6; n < 16; n++ {
		res = append(res, 1<<n, 1<<n-1, 1<<n+1, 65535-1<<n)
	}
	for n := uint32(0); n < 0x10000; n += 733 {
		res = append(res, n)
	}
	return res
}

func check16(c s06Pair) error {
	v := storage.Combine16(storage.ID16(c.Hi), storage.ID16(c.Lo))
	if uint32(v) != c.Hi*65536+c.Lo {
		return pbt.Errf("combining %#x and %#x gives %#x", c.Hi, c.Lo, uint32(v))
	}
	if uint32(v.Upper16()) != c.Hi || uint32(v.Lower16()) != c.Lo {
		return pbt.Errf("%#x taken apart gives %#x and %#x", uint32(v), uint32(v.Upper16()), uint32(v.Lower16()))
	}
	if back := storage.Combine16(v.Upper16(), v.Lower16()); back != v {
		return pbt.Errf("%#x taken apart and combined gives %#x", uint32(v), uint32(back))
	}
	if v.Uint32() != c.Hi*65536+c.Lo {
		return pbt.Errf("the plain value of %#x is %#x", uint32(v), v.Uint32())
	}
	return nil
}
