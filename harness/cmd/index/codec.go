package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"sort"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/xio"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- I09

// Kinds of things written.
const (
	cSet       = iota
	cSetStream // a tag set by WriteTo and ReadFrom
	cColl
	cSetTable
	cSetIndex
	cCollTable
	cCollIndex
	cKinds
)

var codecNames = [cKinds]string{"tag set", "tag set (stream)", "collection", "tag set table", "tag set index", "collection table", "collection index"}

// thing is a value to write: one set or collection, a group of them or groups of them.
type thing struct {
	Kind   int
	Groups [][][]int // Groups[0][0] for one, Groups[0] for a group
	Stale  int       // what the target held before
	Tail   []byte
	Chunks []int
	EOF    bool
	Fault  xio.WriteFault
}

func (c thing) sets() bool { return c.Kind != cColl && c.Kind != cCollTable && c.Kind != cCollIndex }

// groups is the value cut down to the kind.
func (c thing) groups() [][][]int {
	g := c.Groups
	switch c.Kind {
	case cSet, cSetStream, cColl:
		if len(g) == 0 || len(g[0]) == 0 {
			return [][][]int{{nil}}
		}
		return [][][]int{{g[0][0]}}
	case cSetTable, cCollTable:
		if len(g) == 0 {
			return [][][]int{nil}
		}
		return g[:1]
	}
	return g
}

// layout is the written form; expressible tells if the counts hold.
func (c thing) layout() (res []byte, expressible bool) {
	expressible = true
	g := c.groups()
	switch c.Kind {
	case cSetIndex:
		res = binary.BigEndian.AppendUint32(res, uint32(len(g)))
	case cCollIndex:
		res = append(res, byte(len(g)))
		expressible = len(g) < 256
	}
	for _, group := range g {
		switch c.Kind {
		case cSetTable, cSetIndex:
			res = binary.BigEndian.AppendUint16(res, uint16(len(group)))
			expressible = expressible && len(group) < 65536
		case cCollTable, cCollIndex:
			res = binary.BigEndian.AppendUint32(res, uint32(len(group)))
		}
		for _, one := range group {
			res = append(res, byte(len(one)))
			expressible = expressible && len(one) < 256
			for _, m := range one {
				if c.sets() {
					res = append(res, byte(m))
				} else {
					res = binary.BigEndian.AppendUint32(res, uint32(m))
				}
			}
		}
	}
	return res, expressible
}

// write writes the value with the code under test; n is the count reported, -1 if none is.
func (c thing) write(w io.Writer) (n int64, err error) {
	g := c.groups()
	var (
		st  index.TagSetTable
		si  index.TagSetIndex
		ct  index.VariantsTable
		ci  index.VariantsIndex
		out = binutils.NewBinaryWriter(w)
	)
	for _, group := range g {
		st, ct = index.TagSetTable{}, index.VariantsTable{}
		for _, one := range group {
			st, ct = append(st, toSet(one)), append(ct, toColl(one))
		}
		si, ci = append(si, st), append(ci, ct)
	}
	switch c.Kind {
	case cSet:
		return -1, st[0].BinaryWriteTo(out)
	case cSetStream:
		return st[0].WriteTo(w)
	case cColl:
		return -1, ct[0].BinaryWriteTo(out)
	case cSetTable:
		return -1, st.BinaryWriteTo(out)
	case cSetIndex:
		return -1, si.BinaryWriteTo(out)
	case cCollTable:
		return -1, ct.BinaryWriteTo(out)
	}
	return -1, ci.BinaryWriteTo(out)
}

// read reads into a target that held something.
func (c thing) read(r io.Reader) (g [][][]int, n int64, err error) {
	n = -1
	in := binutils.NewBinaryReader(r)
	stale := make([]int, c.Stale)
	for i := range stale {
		stale[i] = 9 + i
	}
	group := func(t index.TagSetTable) (res [][]int) {
		for _, s := range t {
			res = append(res, fromSet(s))
		}
		return res
	}
	cgroup := func(t index.VariantsTable) (res [][]int) {
		for _, s := range t {
			res = append(res, fromColl(s))
		}
		return res
	}
	keep := func(kept, before [][][]int) {
		if !sameGroups(kept, before) {
			panic(pbt.Errf("%s: reading into a variable changed the value %v kept from before to %v", codecNames[c.Kind], before, kept))
		}
	}
	switch c.Kind {
	case cSet, cSetStream:
		s := toSet(stale)
		if c.Stale == 0 {
			s = nil
		}
		kept := s
		if c.Kind == cSet {
			err = s.BinaryReadFrom(in)
		} else {
			n, err = s.ReadFrom(r)
		}
		keep([][][]int{{fromSet(kept)}}, [][][]int{{stale}})
		return [][][]int{{fromSet(s)}}, n, err
	case cColl:
		s := toColl(stale)
		kept := s
		err = s.BinaryReadFrom(in)
		keep([][][]int{{fromColl(kept)}}, [][][]int{{stale}})
		return [][][]int{{fromColl(s)}}, n, err
	case cSetTable:
		s := index.TagSetTable{toSet(stale), toSet(stale), toSet(stale)}
		kept := s
		err = s.BinaryReadFrom(in)
		keep([][][]int{group(kept)}, [][][]int{{stale, stale, stale}})
		return [][][]int{group(s)}, n, err
	case cSetIndex:
		s := index.TagSetIndex{{toSet(stale)}, {toSet(stale), toSet(stale)}, nil}
		kept := s
		err = s.BinaryReadFrom(in)
		keep([][][]int{group(kept[0]), group(kept[1]), group(kept[2])}, [][][]int{{stale}, {stale, stale}, nil})
		for _, t := range s {
			g = append(g, group(t))
		}
		return g, n, err
	case cCollTable:
		s := index.VariantsTable{toColl(stale), toColl(stale), toColl(stale)}
		kept := s
		err = s.BinaryReadFrom(in)
		keep([][][]int{cgroup(kept)}, [][][]int{{stale, stale, stale}})
		return [][][]int{cgroup(s)}, n, err
	}
	s := index.VariantsIndex{{toColl(stale)}, {toColl(stale), toColl(stale)}, nil}
	kept := s
	err = s.BinaryReadFrom(in)
	keep([][][]int{cgroup(kept[0]), cgroup(kept[1]), cgroup(kept[2])}, [][][]int{{stale}, {stale, stale}, nil})
	for _, t := range s {
		g = append(g, cgroup(t))
	}
	return g, n, err
}

func sameGroups(a, b [][][]int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !equalInts(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

func genThing(t *rapid.T) thing {
	c := thing{Kind: rapid.IntRange(0, cKinds-1).Draw(t, "kind")}
	member := rapid.IntRange(0, 255)
	if !c.sets() {
		member = rapid.OneOf(rapid.SampledFrom([]int{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 0x01020304}), rapid.Map(rapid.Uint32(), func(v uint32) int { return int(v) }))
	}
	groups := rapid.IntRange(0, 4).Draw(t, "groups")
	switch c.Kind {
	case cSet, cSetStream, cColl, cSetTable, cCollTable:
		groups = 1
	}
	for g := 0; g < groups; g++ {
		n := rapid.IntRange(0, 4).Draw(t, "group size")
		var group [][]int
		for i := 0; i < n; i++ {
			one := rapid.SliceOfN(member, 0, 6).Draw(t, "members")
			if rapid.IntRange(0, 30).Draw(t, "long") == 0 {
				k := rapid.SampledFrom([]int{127, 128, 254, 255, 256, 257, 511, 512}).Draw(t, "length")
				for j := 0; len(one) < k; j++ {
					one = append(one, j%256)
				}
			}
			group = append(group, one)
		}
		c.Groups = append(c.Groups, group)
	}
	if c.Kind <= cColl && len(c.Groups[0]) == 0 {
		c.Groups[0] = [][]int{rapid.SliceOfN(member, 0, 9).Draw(t, "members")}
	}
	if c.Kind <= cColl {
		c.Groups = [][][]int{{c.Groups[0][0]}}
	}
	c.Stale = rapid.IntRange(0, 5).Draw(t, "stale")
	c.Tail = rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "tail")
	if rapid.Bool().Draw(t, "chunked") {
		c.Chunks = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 4).Draw(t, "chunks")
	}
	c.EOF = rapid.Bool().Draw(t, "with eof")
	c.Fault = xio.WriteFault(rapid.IntRange(0, xio.WriteFaults-1).Draw(t, "fault"))
	return c
}

// sizes are things with counts at and around the limits.
func thingSizes(_ string, yield func(thing) bool) {
	repeat := func(n int) []int {
		res := make([]int, n)
		for i := range res {
			res[i] = i * 7 % 256
		}
		return res
	}
	for kind := 0; kind < cKinds; kind++ {
		for n := 0; n <= 520; n++ {
			if kind <= cColl || n%5 == 0 || n > 250 && n < 260 {
				if !yield(thing{Kind: kind, Groups: [][][]int{{repeat(n)}}, Tail: []byte{1}}) {
					return
				}
			}
		}
		ns := []int{0, 1, 2, 254, 255, 256, 257, 300, 511, 512, 768}
		if kind == cSetTable || kind == cSetIndex || kind == cCollTable {
			ns = append(ns, 65534, 65535, 65536, 65537)
		}
		if kind >= cSetTable {
			for _, n := range ns {
				groups, group := make([][][]int, n), make([][]int, n)
				for i := range group {
					group[i] = []int{i % 256}
					if i%50 == 0 {
						groups[i] = [][]int{{i % 256}}
					}
				}
				if !yield(thing{Kind: kind, Groups: [][][]int{group}}) {
					return
				}
				if kind == cSetIndex || kind == cCollIndex {
					if !yield(thing{Kind: kind, Groups: groups}) {
						return
					}
				}
			}
		}
	}
}

func runThing(ctx *pbt.Ctx, c thing) error {
	name := codecNames[c.Kind]
	want, good := c.layout()
	var buf bytes.Buffer
	n, err := c.write(&buf)
	ctx.Exec(1)
	ctx.Label("%s", name)
	ctx.LabelIf(!good, "not expressible")
	ctx.NonTrivialIf(len(want) > 3)
	if !good {
		if err == nil {
			return pbt.Errf("%s: counts beyond their fields were written without error in %d bytes", name, buf.Len())
		}
		if n > int64(buf.Len()) {
			return pbt.Errf("%s: %d bytes reported, %d written", name, n, buf.Len())
		}
		return nil
	}
	if err != nil {
		return pbt.Errf("%s: writing %v: %v", name, c.groups(), err)
	}
	if !bytes.Equal(buf.Bytes(), want) {
		return pbt.Errf("%s: written as %x, want %x", name, cut(buf.Bytes()), cut(want))
	}
	if n >= 0 && n != int64(len(want)) {
		return pbt.Errf("%s: %d bytes reported, %d written", name, n, len(want))
	}
	source := xio.NewChunks(append(append([]byte(nil), want...), c.Tail...), c.Chunks, c.EOF)
	got, n, err := c.read(source)
	if err != nil {
		return pbt.Errf("%s: reading back %x: %v", name, cut(want), err)
	}
	if !sameGroups(got, c.groups()) {
		return pbt.Errf("%s: read back as %.300v, want %.300v", name, got, c.groups())
	}
	if source.Given != len(want) {
		return pbt.Errf("%s: reading consumed %d bytes of %d", name, source.Given, len(want))
	}
	if n >= 0 && n != int64(len(want)) {
		return pbt.Errf("%s: %d bytes reported, %d read", name, n, len(want))
	}
	return nil
}

func cut(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func runBroken(ctx *pbt.Ctx, c thing) error {
	name := codecNames[c.Kind]
	data, good := c.layout()
	if !good {
		return nil
	}
	ctx.Label("%s", name)
	ctx.NonTrivialIf(len(data) > 3)
	for _, n := range xio.Positions(len(data), 200) {
		ctx.Exec(3)
		_, taken, err := c.read(xio.NewChunks(data[:n], c.Chunks, c.EOF))
		if err == nil {
			return pbt.Errf("%s: cut to %d of %d bytes, it is read without error", name, n, len(data))
		}
		if taken > int64(n) {
			return pbt.Errf("%s: %d bytes reported, %d were there", name, taken, n)
		}
		r := xio.NewChunks(data, c.Chunks, c.EOF)
		r.FailAt = n
		if _, _, err = c.read(r); err == nil {
			return pbt.Errf("%s: the stream fails at byte %d of %d, it is read without error", name, n, len(data))
		}
		w := &xio.Limited{Limit: n, Fault: c.Fault}
		put, err := c.write(w)
		if err == nil {
			return pbt.Errf("%s: the destination fails at byte %d of %d (way %d), writing reports no error", name, n, len(data), c.Fault)
		}
		if put > int64(len(w.Got)) {
			return pbt.Errf("%s: %d bytes reported, %d accepted", name, put, len(w.Got))
		}
	}
	return nil
}

// pair is two collections (or tag sets) to compare.
type pair struct {
	Sets bool
	A, B []int
	Add  int
}

func i09() pbt.Property {
	return pbt.Property{
		ID:   "I09",
		Rule: "the written form has more than 3 bytes; for 'laws' both values have members",
		Assumptions: []string{
			"members are added to collections in ascending order of distinct members, as the index keeps them",
			"faults: cut at every byte, failure at every byte, any splitting; other damage to counts is not claimed",
		},
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.Rapid("codec", 24000, 720000, genThing, runThing),
			pbt.Enum("sizes", thingSizes, runThing),
			pbt.Rapid("broken", 7200, 180000, genThing, runBroken),
			pbt.Rapid("laws", 24000, 720000, func(t *rapid.T) pair {
				p := pair{Sets: rapid.Bool().Draw(t, "sets")}
				member := rapid.IntRange(0, 5)
				if rapid.IntRange(0, 2).Draw(t, "wide") == 0 && !p.Sets {
					member = rapid.SampledFrom([]int{0, 255, 256, 65535, 65536, 65537, 1 << 24, 1<<32 - 1})
				}
				p.A = rapid.SliceOfN(member, 0, 7).Draw(t, "a")
				if rapid.IntRange(0, 49).Draw(t, "long") == 0 { // around the lengths a count can express
					n := rapid.SampledFrom([]int{15, 16, 31, 64, 127, 128, 255, 256, 300, 511, 512}).Draw(t, "length")
					for len(p.A) < n {
						p.A = append(p.A, len(p.A)*len(p.A)%251)
					}
				}
				p.B = append([]int(nil), p.A...)
				switch rapid.IntRange(0, 7).Draw(t, "relation") {
				case 0:
					p.B = rapid.SliceOfN(member, 0, 7).Draw(t, "b")
				case 1:
					if len(p.B) > 0 {
						p.B[rapid.IntRange(0, len(p.B)-1).Draw(t, "at")] = member.Draw(t, "other")
					}
				case 2:
					p.B = append(p.B, member.Draw(t, "more"))
				case 3:
					p.B = rapid.Permutation(p.B).Draw(t, "permuted")
				case 5: // as long as the other but for what is lost in a byte, and beginning in the same way
					for n := len(p.A) + 256; len(p.B) < n; {
						p.B = append(p.B, len(p.B)%251)
					}
				case 6:
					p.B = p.B[:rapid.IntRange(0, len(p.B)).Draw(t, "cut")]
				}
				p.Add = member.Draw(t, "add")
				return p
			}, runLaws),
			pbt.Enum("long-laws", func(tier string, yield func(pair) bool) {
				for _, n := range []int{1, 15, 16, 63, 64, 127, 128, 129, 253, 254, 255, 256, 257, 300, 1000} {
					p := pair{}
					for i := 0; i < n; i++ {
						p.A = append(p.A, (i%7)<<16+3*i)
					}
					p.B = append([]int(nil), p.A...)
					last := 3 * n
					for _, add := range []int{0, 1, 2, last / 2, last - 3, last - 2, last, 7<<16 + 1, 1<<32 - 2} {
						p.Add = add
						if !yield(p) {
							return
						}
					}
				}
			}, runLaws),
		},
	}
}

func runLaws(ctx *pbt.Ctx, p pair) error {
	ctx.Exec(1)
	ctx.NonTrivialIf(len(p.A) > 0 && len(p.B) > 0)
	want := equalInts(p.A, p.B)
	ctx.LabelIf(want, "equal")
	ctx.LabelIf(!want && len(p.A) == len(p.B), "unequal of equal length")
	sorted := func(v []int) []int {
		v = append([]int(nil), v...)
		sort.Ints(v)
		return v
	}
	if p.Sets {
		a, b := toSet(p.A), toSet(p.B)
		if a.EqualTo(b) != want || b.EqualTo(a) != want {
			return pbt.Errf("%v and %v: equal %v and %v, want %v", a, b, a.EqualTo(b), b.EqualTo(a), want)
		}
		if !equalInts(fromSet(a), p.A) || !equalInts(fromSet(b), p.B) {
			return pbt.Errf("comparing changed %v to %v or %v to %v", p.A, a, p.B, b)
		}
		for i := range p.A {
			for j := range p.A {
				if a.Less(i, j) != (p.A[i] < p.A[j]) {
					return pbt.Errf("%v: element %d before %d: %v", p.A, i, j, a.Less(i, j))
				}
			}
		}
		if a.Len() != len(p.A) {
			return pbt.Errf("%v: length %d", p.A, a.Len())
		}
		if len(p.A) > 1 {
			i, j := p.Add%len(p.A), len(p.A)-1
			a.Swap(i, j)
			exp := append([]int(nil), p.A...)
			exp[i], exp[j] = exp[j], exp[i]
			if !equalInts(fromSet(a), exp) {
				return pbt.Errf("%v with %d and %d exchanged is %v", p.A, i, j, a)
			}
		}
		a.Sort()
		if !equalInts(fromSet(a), sorted(p.A)) {
			return pbt.Errf("%v sorted is %v", p.A, a)
		}
		return nil
	}
	a, b := toColl(p.A), toColl(p.B)
	if a.EqualTo(b) != want || b.EqualTo(a) != want {
		return pbt.Errf("%v and %v: equal %v and %v, want %v", a, b, a.EqualTo(b), b.EqualTo(a), want)
	}
	if !equalInts(fromColl(a), p.A) || !equalInts(fromColl(b), p.B) {
		return pbt.Errf("comparing changed %v to %v or %v to %v", p.A, a, p.B, b)
	}
	for _, x := range append([]int{p.Add}, p.B...) {
		has := false
		for _, y := range p.A {
			has = has || x == y
		}
		if a.Has(index.TagSetID(x)) != has {
			return pbt.Errf("%v has %d: %v", p.A, x, a.Has(index.TagSetID(x)))
		}
	}
	for i := range p.A {
		for j := range p.A {
			if a.Less(i, j) != (p.A[i] < p.A[j]) {
				return pbt.Errf("%v: element %d before %d: %v", p.A, i, j, a.Less(i, j))
			}
		}
	}
	if len(p.A) > 1 {
		i, j := p.Add%len(p.A), len(p.A)-1
		s := toColl(p.A)
		s.Swap(i, j)
		exp := append([]int(nil), p.A...)
		exp[i], exp[j] = exp[j], exp[i]
		if !equalInts(fromColl(s), exp) {
			return pbt.Errf("%v with %d and %d exchanged is %v", p.A, i, j, s)
		}
	}
	// a proper collection: ascending, distinct
	var proper []int
	for i, x := range sorted(p.A) {
		if i == 0 || x != proper[len(proper)-1] {
			proper = append(proper, x)
		}
	}
	backing := make(index.TagSetIDCollection, len(proper), len(proper)+3)
	copy(backing, toColl(proper))
	grown := backing.Add(index.TagSetID(p.Add))
	exp := append([]int(nil), proper...)
	if i := sort.SearchInts(exp, p.Add); i == len(exp) || exp[i] != p.Add {
		exp = append(exp, p.Add)
		sort.Ints(exp)
		ctx.Label("member added")
	}
	if !equalInts(fromColl(grown), exp) {
		return pbt.Errf("%v with %d added is %v", proper, p.Add, grown)
	}
	if !equalInts(fromColl(backing), proper) {
		return pbt.Errf("adding %d changed the original %v to %v", p.Add, proper, backing)
	}
	again := backing.Add(index.TagSetID(p.Add + 1)) // from the same original
	if !equalInts(fromColl(grown), exp) {
		return pbt.Errf("adding %d to %v changed the result of adding %d: %v, now %v", p.Add+1, proper, p.Add, exp, grown)
	}
	_ = fmt.Sprint(again)
	return nil
}
