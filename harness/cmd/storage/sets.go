package main

import (
	"bytes"
	"io"
	"sort"

	"github.com/amarin/gomorphy/verif/collide"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/xio"

	"pgregory.net/rapid"
)

// setSpec describes a set: explicit ids, or Len pseudo-random ids made from Seed.
type setSpec struct {
	IDs  []int  `json:",omitempty"`
	Len  int    `json:",omitempty"`
	Seed uint32 `json:",omitempty"`
	Nil  bool   `json:",omitempty"`
	// Hash is the number, from 1, of a common hash function which does not tell this set from another one, chosen by
	// Seed as well; Second tells which of both.
	Hash   int  `json:",omitempty"`
	Second bool `json:",omitempty"`
}

// alike makes sets out of a pair which a hash function does not tell apart.
func (s setSpec) alike(w *width) []int {
	enc := collide.Bytes1
	if w.bits == 16 {
		enc = []collide.Encoding{collide.Big2, collide.Little2}[s.Seed%2]
	}
	a, b := collide.Pair(s.Hash-1, s.Seed/2, 0, w.maxID, enc)
	if s.Second {
		return b
	}
	return a
}

func genAlike(t *rapid.T, label string) setSpec {
	return setSpec{Hash: rapid.IntRange(1, collide.Kinds).Draw(t, label+" hash"), Seed: rapid.Uint32Range(0, 199).Draw(t, label+" seed"), Second: rapid.Bool().Draw(t, label+" second")}
}

func (s setSpec) ids(w *width) []int {
	if s.Nil {
		return nil
	}
	if s.Hash > 0 {
		return s.alike(w)
	}
	if s.Len == 0 {
		res := make([]int, len(s.IDs))
		for i, v := range s.IDs {
			res[i] = v & w.maxID
		}
		return res
	}
	res := make([]int, s.Len)
	x := s.Seed*2654435761 + 12345
	for i := range res {
		x = x*1664525 + 1013904223
		res[i] = int(x>>8) & w.maxID
		if s.Seed%7 == 3 { // few different values
			res[i] %= 5
		}
	}
	return res
}

func genID(w *width) *rapid.Generator[int] {
	edge := []int{0, 1, 2, 0x20, 0x7f, 0x80, 0xff}
	if w.bits == 16 {
		edge = append(edge, 0x100, 0x101, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff, 0x0a00, 0x000a)
	}
	return rapid.OneOf(rapid.SampledFrom(edge), rapid.IntRange(0, 12), rapid.IntRange(0, w.maxID))
}

func genShort(w *width, max int) *rapid.Generator[setSpec] {
	return rapid.Custom(func(t *rapid.T) setSpec {
		return setSpec{IDs: rapid.SliceOfN(genID(w), 0, max).Draw(t, "ids")}
	})
}

// lengths around the count limits of both widths, and powers of two.
var edgeLens8 = []int{127, 128, 129, 200, 253, 254, 255}
var edgeLens16 = []int{127, 128, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 4096}
var hugeLens16 = []int{32767, 32768, 65279, 65280, 65534, 65535}

func genSet(t *rapid.T, w *width, label string) setSpec {
	switch rapid.IntRange(0, 9).Draw(t, label+" kind") {
	case 0, 1:
		lens := edgeLens8
		if w.bits == 16 {
			lens = edgeLens16
			if rapid.IntRange(0, 24).Draw(t, label+" huge") == 24 {
				lens = hugeLens16
			}
		}
		return setSpec{Len: rapid.SampledFrom(lens).Draw(t, label+" len"), Seed: rapid.Uint32Range(0, 99).Draw(t, label+" seed")}
	case 2:
		return setSpec{Len: rapid.IntRange(1, 255).Draw(t, label+" len"), Seed: rapid.Uint32Range(0, 99).Draw(t, label+" seed")}
	case 3:
		return setSpec{Nil: rapid.Bool().Draw(t, label+" nil")}
	default:
		return genShort(w, 12).Draw(t, label)
	}
}

func genWidth(t *rapid.T) int { return rapid.SampledFrom([]int{8, 16}).Draw(t, "width") }

// layout is the specified form of a set.
func layout(w *width, ids []int) []byte {
	var b []byte
	put := func(v int) {
		if w.bits == 16 {
			b = append(b, byte(v>>8))
		}
		b = append(b, byte(v))
	}
	put(len(ids))
	for _, v := range ids {
		put(v)
	}
	return b
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func short(a []int) any {
	if len(a) > 40 {
		return pbt.Errf("%d ids %v...%v", len(a), a[:20], a[len(a)-5:])
	}
	return a
}

func shortB(a []byte) any {
	if len(a) > 80 {
		return pbt.Errf("%d bytes %x...%x", len(a), a[:40], a[len(a)-10:])
	}
	return pbt.Errf("%x", a)
}

type s01Case struct {
	Width    int
	Sets     []setSpec
	Prev     []setSpec // what the target variables hold before reading
	Trailing []byte
}

func s01() pbt.Property {
	return pbt.Property{
		ID: "S01",
		Rule: "cases are a width, a sequence of sets written one after another to one stream, previous contents of the targets and trailing bytes; " +
			"lengths are biased to count-field boundaries, ids to byte boundaries; non-trivial: at least one set with an element, or a refused length; " +
			"plus every length 0..300 (both widths) and 65530..65545, 131071..131073 (16-bit) once",
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.Rapid("streams", 9000, 300000, func(t *rapid.T) s01Case {
				c := s01Case{Width: genWidth(t)}
				w := widths[c.Width]
				n := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 5}).Draw(t, "sets")
				for i := 0; i < n; i++ {
					c.Sets = append(c.Sets, genSet(t, w, "set"))
					c.Prev = append(c.Prev, genSet(t, w, "prev"))
				}
				c.Trailing = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "trailing")
				return c
			}, s01Run),
			pbt.Enum("lengths", func(tier string, yield func(s01Case) bool) {
				for _, bits := range []int{8, 16} {
					for n := 0; n <= 300; n++ {
						if bits == 8 && n > 255 {
							break
						}
						if !yield(s01Case{Width: bits, Sets: []setSpec{{Len: n, Seed: uint32(n)}}, Prev: []setSpec{{}}, Trailing: []byte{1}}) {
							return
						}
					}
				}
				for n := 65530; n <= 65535; n++ {
					if !yield(s01Case{Width: 16, Sets: []setSpec{{Len: n, Seed: uint32(n)}}, Prev: []setSpec{{}}, Trailing: []byte{1}}) {
						return
					}
				}
			}, s01Run),
			pbt.Enum("refused", func(tier string, yield func(s01Refused) bool) {
				for n := 256; n <= 300; n++ {
					if !yield(s01Refused{8, n}) {
						return
					}
				}
				for _, n := range []int{511, 512, 513, 1024, 65535, 65536, 65537, 65792} {
					if !yield(s01Refused{8, n}) {
						return
					}
				}
				for n := 65536; n <= 65545; n++ {
					if !yield(s01Refused{16, n}) {
						return
					}
				}
				for _, n := range []int{65792, 131071, 131072, 131073} {
					if !yield(s01Refused{16, n}) {
						return
					}
				}
			}, func(ctx *pbt.Ctx, c s01Refused) error {
				ctx.NonTrivial()
				ctx.Exec(1)
				w := widths[c.Width]
				var out bytes.Buffer
				n, err, _ := w.write(setSpec{Len: c.Len, Seed: 1}.ids(w), &out)
				if err == nil {
					return pbt.Errf("a %d-bit set of %d elements was written without an error (%d bytes emitted, first %x)", w.bits, c.Len, out.Len(), first(out.Bytes(), 4))
				}
				if n < 0 || n > int64(out.Len()) {
					return pbt.Errf("refused write reports %d bytes, %d were emitted", n, out.Len())
				}
				return nil
			}),
		},
	}
}

type s01Refused struct{ Width, Len int }

func first(b []byte, n int) []byte {
	if len(b) < n {
		return b
	}
	return b[:n]
}

func s01Run(ctx *pbt.Ctx, c s01Case) error {
	w := widths[c.Width]
	var out bytes.Buffer
	ctx.Label("width %d", c.Width)
	ctx.LabelIf(len(c.Sets) > 1, "several sets")
	var sets [][]int
	for i, spec := range c.Sets {
		ids := spec.ids(w)
		sets = append(sets, ids)
		ctx.NonTrivialIf(len(ids) > 0)
		ctx.LabelIf(len(ids) > 127, "over 127 elements")
		ctx.LabelIf(len(ids) == w.maxLen, "longest set")
		start := out.Len()
		n, err, after := w.write(ids, &out)
		ctx.Exec(2)
		if err != nil {
			return pbt.Errf("set %d: write %v: %v", i, short(ids), err)
		}
		got, want := out.Bytes()[start:], layout(w, ids)
		if !bytes.Equal(got, want) {
			return pbt.Errf("set %d: %v written as %v, expected %v", i, short(ids), shortB(got), shortB(want))
		}
		if n != int64(len(want)) {
			return pbt.Errf("set %d: %v: reports %d bytes written, wrote %d", i, short(ids), n, len(want))
		}
		if !same(after, ids) {
			return pbt.Errf("set %d: writing changed the set %v to %v", i, short(ids), short(after))
		}
	}
	r := bytes.NewReader(append(append([]byte{}, out.Bytes()...), c.Trailing...))
	for i, ids := range sets {
		left := r.Len()
		got, n, err := w.read(c.Prev[i].ids(w), r)
		if err != nil {
			return pbt.Errf("set %d: read back %v: %v", i, short(ids), err)
		}
		if !same(got, ids) {
			return pbt.Errf("set %d: %v read back as %v", i, short(ids), short(got))
		}
		size := (len(ids) + 1) * w.idSize
		if n != int64(size) || left-r.Len() != size {
			return pbt.Errf("set %d: %v takes %d bytes: reported %d, consumed %d", i, short(ids), size, n, left-r.Len())
		}
	}
	rest, _ := io.ReadAll(r)
	if !bytes.Equal(rest, c.Trailing) {
		return pbt.Errf("trailing data %x became %x", c.Trailing, rest)
	}
	return nil
}

// ---------------------------------------------------------------- S02

type s02Case struct {
	Width   int
	Set     setSpec
	Prev    setSpec
	Tail    []byte
	Sizes   []int
	WithEOF bool
	Fault   int
}

func genS02(t *rapid.T) s02Case {
	c := s02Case{Width: genWidth(t)}
	w := widths[c.Width]
	c.Set = genSet(t, w, "set")
	c.Prev = genShort(w, 4).Draw(t, "prev")
	c.Tail = rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "tail")
	c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3, 5, 7, 64, 255, 511}), 0, 5).Draw(t, "sizes")
	c.WithEOF = rapid.Bool().Draw(t, "eof with data")
	c.Fault = rapid.IntRange(0, xio.WriteFaults-1).Draw(t, "write fault")
	return c
}

func s02() pbt.Property {
	return pbt.Property{
		ID:    "S02",
		Level: "fault_enumeration",
		Rule: "cases are a set, a previous target content, a way of splitting the stream and a way of failing; within a case every truncation and fault offset " +
			"is tried for encodings up to 160 bytes, 160 spread offsets (both ends densely) beyond that; non-trivial: the set has an element; " +
			"plus, for every set of up to 3 elements over {0,1,255(,256,65535)}, every splitting into pieces of up to 3 bytes and every fault",
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.Rapid("truncated", 2500, 60000, genS02, s02Truncated),
			pbt.Rapid("chunked", 5000, 150000, genS02, s02Chunked),
			pbt.Rapid("failing-reader", 2500, 60000, genS02, s02FailingReader),
			pbt.Rapid("failing-writer", 2500, 60000, genS02, s02FailingWriter),
			pbt.Enum("small", func(tier string, yield func(s02Case) bool) {
				for _, bits := range []int{8, 16} {
					vals := []int{0, 1, 255}
					if bits == 16 {
						vals = []int{0, 255, 256, 65535}
					}
					for _, ids := range tuples(vals, 3) {
						for _, sizes := range tuples([]int{0, 1, 2, 3}, 3) {
							for _, eof := range []bool{false, true} {
								for fault := 0; fault < 4; fault++ {
									if !yield(s02Case{Width: bits, Set: setSpec{IDs: ids}, Sizes: sizes, WithEOF: eof, Fault: fault}) {
										return
									}
									if len(sizes) > 1 {
										break
									}
								}
							}
						}
					}
				}
			}, func(ctx *pbt.Ctx, c s02Case) error {
				for _, f := range []func(*pbt.Ctx, s02Case) error{s02Chunked, s02Truncated, s02FailingReader, s02FailingWriter} {
					if err := f(ctx, c); err != nil {
						return err
					}
				}
				return nil
			}),
		},
	}
}

// tuples returns all sequences over vals of length 0..max.
func tuples(vals []int, max int) [][]int {
	res := [][]int{{}}
	last := res
	for n := 1; n <= max; n++ {
		var next [][]int
		for _, p := range last {
			for _, v := range vals {
				next = append(next, append(append([]int{}, p...), v))
			}
		}
		res = append(res, next...)
		last = next
	}
	return res
}

func s02Chunked(ctx *pbt.Ctx, c s02Case) error {
	w := widths[c.Width]
	ids := c.Set.ids(w)
	ctx.NonTrivialIf(len(ids) > 0)
	ctx.LabelIf(c.WithEOF && len(c.Tail) == 0, "end of file with the last bytes")
	ctx.LabelIf(len(c.Sizes) > 0, "split stream")
	enc := layout(w, ids)
	ctx.Exec(1)
	r := xio.NewChunks(append(append([]byte{}, enc...), c.Tail...), c.Sizes, c.WithEOF)
	got, n, err := w.read(c.Prev.ids(w), r)
	if err != nil {
		return pbt.Errf("%v in pieces %v (end of file with data: %v) with %d bytes following: %v", shortB(enc), c.Sizes, c.WithEOF, len(c.Tail), err)
	}
	if !same(got, ids) {
		return pbt.Errf("%v in pieces %v read as %v, expected %v", shortB(enc), c.Sizes, short(got), short(ids))
	}
	if n != int64(len(enc)) || r.Given != len(enc) {
		return pbt.Errf("%v in pieces %v: reported %d, consumed %d of %d bytes", shortB(enc), c.Sizes, n, r.Given, len(enc))
	}
	return nil
}

func s02Truncated(ctx *pbt.Ctx, c s02Case) error {
	w := widths[c.Width]
	ids := c.Set.ids(w)
	ctx.NonTrivialIf(len(ids) > 0)
	enc := layout(w, ids)
	for _, cut := range xio.Positions(len(enc), 160) {
		ctx.Exec(1)
		r := xio.NewChunks(enc[:cut], c.Sizes, c.WithEOF)
		got, n, err := w.read(c.Prev.ids(w), r)
		if err == nil {
			return pbt.Errf("%v cut to %d bytes (pieces %v, end of file with data: %v) accepted as %v", shortB(enc), cut, c.Sizes, c.WithEOF, short(got))
		}
		if n < 0 || n > int64(r.Given) {
			return pbt.Errf("%v cut to %d bytes: reported %d bytes, consumed %d", shortB(enc), cut, n, r.Given)
		}
	}
	return nil
}

func s02FailingReader(ctx *pbt.Ctx, c s02Case) error {
	w := widths[c.Width]
	ids := c.Set.ids(w)
	ctx.NonTrivialIf(len(ids) > 0)
	enc := layout(w, ids)
	for _, at := range xio.Positions(len(enc), 160) {
		ctx.Exec(1)
		r := xio.NewChunks(enc, c.Sizes, c.WithEOF)
		r.FailAt = at
		got, n, err := w.read(c.Prev.ids(w), r)
		if err == nil {
			return pbt.Errf("%v from a stream failing at byte %d (pieces %v) accepted as %v", shortB(enc), at, c.Sizes, short(got))
		}
		if n < 0 || n > int64(r.Given) {
			return pbt.Errf("%v failing at byte %d: reported %d bytes, consumed %d", shortB(enc), at, n, r.Given)
		}
	}
	return nil
}

func s02FailingWriter(ctx *pbt.Ctx, c s02Case) error {
	w := widths[c.Width]
	ids := c.Set.ids(w)
	ctx.NonTrivialIf(len(ids) > 0)
	ctx.Label("write fault %d", c.Fault)
	enc := layout(w, ids)
	for _, at := range xio.Positions(len(enc), 160) {
		ctx.Exec(1)
		out := &xio.Limited{Limit: at, Fault: xio.WriteFault(c.Fault)}
		n, err, _ := w.write(ids, out)
		if err == nil {
			return pbt.Errf("%v written to a destination failing at byte %d (fault %d): no error, %d reported, %d accepted", shortB(enc), at, c.Fault, n, len(out.Got))
		}
		if n < 0 || n > int64(len(out.Got)) {
			return pbt.Errf("%v failing at byte %d (fault %d): reported %d bytes, destination accepted %d", shortB(enc), at, c.Fault, n, len(out.Got))
		}
		if c.Fault&int(xio.Passing) == 0 && !bytes.HasPrefix(enc, out.Got) {
			return pbt.Errf("%v failing at byte %d: destination got %v", shortB(enc), at, shortB(out.Got))
		}
	}
	return nil
}

// ---------------------------------------------------------------- S03

type s03Case struct {
	Width int
	A, B  setSpec
	Mut   int // how B is derived from A
	Pos   int
	I, J  int
}

func s03() pbt.Property {
	return pbt.Property{
		ID: "S03",
		Rule: "cases are pairs of sets, the second independent, derived from the first (copy, permutation, prefix, extension, one position or one bit changed) or of equal hash (sums, polynomials, FNV, CRC, ...), and positions; " +
			"non-trivial: both sets have elements; plus every pair of sets of up to 3 elements over four values per width",
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.Rapid("laws", 15000, 500000, func(t *rapid.T) s03Case {
				c := s03Case{Width: genWidth(t)}
				w := widths[c.Width]
				c.A = genSet(t, w, "a")
				c.B = genSet(t, w, "b")
				if rapid.IntRange(0, 5).Draw(t, "alike") == 0 {
					c.A = genAlike(t, "alike")
					c.B, c.Mut = c.A, 8
					c.B.Second = !c.A.Second
					return c
				}
				c.Mut = rapid.IntRange(0, 8).Draw(t, "derive")
				c.Pos = rapid.OneOf(rapid.IntRange(0, 14), rapid.IntRange(0, 70000)).Draw(t, "pos")
				c.I = rapid.IntRange(0, 1000).Draw(t, "i")
				c.J = rapid.IntRange(0, 1000).Draw(t, "j")
				return c
			}, s03Run),
			pbt.Enum("small-pairs", func(tier string, yield func(s03Pair) bool) {
				for _, bits := range []int{8, 16} {
					vals := []int{0, 1, 128, 255}
					if bits == 16 {
						vals = []int{0, 1, 256, 65535}
					}
					for _, a := range tuples(vals, 3) {
						if !yield(s03Pair{bits, a, vals}) {
							return
						}
					}
				}
			}, func(ctx *pbt.Ctx, c s03Pair) error {
				w := widths[c.Width]
				ctx.NonTrivialIf(len(c.A) > 0)
				if err := checkSort(w, c.A); err != nil {
					return err
				}
				for _, b := range tuples(c.Vals, 3) {
					ctx.Exec(1)
					if err := checkEqual(w, c.A, b); err != nil {
						return err
					}
				}
				return nil
			}),
		},
	}
}

type s03Pair struct {
	Width   int
	A, Vals []int
}

func derive(c s03Case, w *width, a []int) []int {
	b := append([]int{}, a...)
	pos := 0
	if len(b) > 0 {
		pos = c.Pos % len(b)
	}
	switch c.Mut {
	case 1: // permutation
		for i := range b {
			j := (i*7 + c.Pos) % len(b)
			b[i], b[j] = b[j], b[i]
		}
	case 2: // prefix
		b = b[:pos]
	case 3: // extension
		b = append(b, c.I&w.maxID)
	case 4: // one bit
		if len(b) > 0 {
			b[pos] ^= 1 << (c.J % w.bits)
		}
	case 5: // last position
		if len(b) > 0 {
			b[len(b)-1] = (b[len(b)-1] + 1) & w.maxID
		}
	case 6: // duplicate instead of another
		if len(b) > 1 {
			b[pos] = b[(pos+1)%len(b)]
		}
	case 7, 8:
		return c.B.ids(w)
	}
	return b
}

func s03Run(ctx *pbt.Ctx, c s03Case) error {
	w := widths[c.Width]
	a := c.A.ids(w)
	b := derive(c, w, a)
	ctx.Label("width %d", c.Width)
	ctx.Label("derived %d", c.Mut)
	ctx.NonTrivialIf(len(a) > 0 && len(b) > 0)
	ctx.LabelIf(len(a) > 12, "over 12 elements")
	ctx.LabelIf(same(a, b), "equal pair")
	ctx.Exec(5)
	for _, s := range [][]int{a, b} {
		if err := checkSort(w, s); err != nil {
			return err
		}
		ctx.Turn()
	}
	if err := checkEqual(w, a, b); err != nil {
		return err
	}
	// equal as sorted exactly when equal as multisets
	if err := checkEqual(w, w.sort(a), w.sort(b)); err != nil {
		return err
	}
	if w.length(a) != len(a) {
		return pbt.Errf("length of %v is reported as %d", short(a), w.length(a))
	}
	if len(a) > 0 {
		i, j := c.I%len(a), c.J%len(a)
		if got := w.less(a, i, j); got != (a[i] < a[j]) {
			return pbt.Errf("%v: less(%d,%d)=%v for ids %d and %d", short(a), i, j, got, a[i], a[j])
		}
		want := append([]int{}, a...)
		want[i], want[j] = want[j], want[i]
		if got := w.swap(a, i, j); !same(got, want) {
			return pbt.Errf("%v: exchange of %d and %d gives %v", short(a), i, j, short(got))
		}
	}
	return nil
}

func checkSort(w *width, a []int) error {
	want := append([]int{}, a...)
	sort.Ints(want)
	got := w.sort(a)
	if !same(got, want) {
		return pbt.Errf("%v sorts to %v", short(a), short(got))
	}
	if again := w.sort(got); !same(again, want) {
		return pbt.Errf("%v, sorted, sorts again to %v", short(got), short(again))
	}
	if stable := w.iface(a); !same(stable, want) {
		return pbt.Errf("%v sorted through the exchange and order primitives gives %v", short(a), short(stable))
	}
	return nil
}

func checkEqual(w *width, a, b []int) error {
	want := same(a, b)
	got, a2, b2 := w.equal(a, b)
	if got != want {
		return pbt.Errf("%v equal to %v: %v", short(a), short(b), got)
	}
	if !same(a, a2) || !same(b, b2) {
		return pbt.Errf("comparing %v with %v changed them to %v and %v", short(a), short(b), short(a2), short(b2))
	}
	if back, _, _ := w.equal(b, a); back != want {
		return pbt.Errf("%v equal to %v: %v, but the other way round %v", short(a), short(b), got, back)
	}
	return nil
}
