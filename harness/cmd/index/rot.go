package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/pbt"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- I10

// rotten is a file some fields or bytes of which were changed.
type rotten struct {
	File   fileSpec
	Rot    []rot
	Target int
}

// rot is one change.
type rot struct {
	Kind int // 0..: a field of a kind of fieldKinds; then: a byte, a bit, four bytes, removed bytes, inserted bytes, a repeated part
	At   int
	How  int // which value the field gets
	Val  uint32
}

var fieldKinds = []string{"parent", "number", "letter", "collection", "tag of a set", "set of a collection", "count", "length"}

const (
	rotByte = iota + 8
	rotBit
	rotFour
	rotRemove
	rotInsert
	rotRepeat
	rotKinds
)

// field is where a number is in a file.
type field struct{ kind, at, width int }

func (f *file) fields() (res []field) {
	at := 0
	add := func(kind, width int) {
		res = append(res, field{kind, at, width})
		at += width
	}
	at += 3
	add(6, 1)
	at += 8 * len(f.Tags)
	at += 3
	add(6, 4)
	for _, group := range f.Sets {
		add(6, 2)
		for _, set := range group {
			add(7, 1)
			for range set {
				add(4, 1)
			}
		}
	}
	at += 3
	add(6, 1)
	for _, group := range f.Colls {
		add(6, 4)
		for _, coll := range group {
			add(7, 1)
			for range coll {
				add(5, 4)
			}
		}
	}
	at += 3
	add(6, 4)
	for range f.Nodes {
		add(0, 4)
		add(1, 4)
		add(2, 4)
		add(3, 4)
	}
	return res
}

func (c *rotten) bytes(ctx *pbt.Ctx) []byte { return rotBytes(ctx, c.File.build(), c.Rot) }

func rotBytes(ctx *pbt.Ctx, f *file, rots []rot) []byte {
	data := f.bytes()
	fields := f.fields()
	byKind := map[int][]field{}
	for _, x := range fields {
		byKind[x.kind] = append(byKind[x.kind], x)
	}
	for _, r := range rots {
		if len(data) == 0 {
			break
		}
		i := r.At % len(data)
		switch {
		case r.Kind < rotByte:
			list := byKind[r.Kind]
			if len(list) == 0 {
				continue
			}
			x := list[r.At%len(list)]
			if x.at+x.width > len(data) {
				continue
			}
			at := data[x.at : x.at+x.width]
			var old uint32
			for _, b := range at {
				old = old<<8 | uint32(b)
			}
			v := r.Val
			switch r.How {
			case 0:
				v = old + 1
			case 1:
				v = old - 1
			case 2:
				v = 0
			case 3:
				v = 0xffffffff
			case 4:
				v = r.Val % 40
			case 5: // what another field of the kind holds
				y := list[int(r.Val)%len(list)]
				if y.at+y.width <= len(data) {
					v = 0
					for _, b := range data[y.at : y.at+y.width] {
						v = v<<8 | uint32(b)
					}
				}
			case 6:
				v = old ^ 1<<(r.Val%uint32(8*x.width))
			case 7:
				v = uint32(len(f.Nodes))
			}
			for j := range at {
				at[j] = byte(v >> (8 * (x.width - 1 - j)))
			}
			ctx.Label("%s", fieldKinds[r.Kind])
		case r.Kind == rotByte:
			data[i] = byte(r.Val)
		case r.Kind == rotBit:
			data[i] ^= 1 << (r.Val % 8)
		case r.Kind == rotFour:
			if i+4 <= len(data) {
				binary.BigEndian.PutUint32(data[i:], r.Val)
			}
		case r.Kind == rotRemove:
			n := min(int(r.Val%9)+1, len(data)-i)
			data = append(data[:i], data[i+n:]...)
		case r.Kind == rotInsert:
			data = append(data[:i], append(bytes.Repeat([]byte{byte(r.Val >> 8)}, int(r.Val%9)+1), data[i:]...)...)
		case r.Kind == rotRepeat:
			n := min(int(r.Val%33)+1, len(data)-i)
			data = append(data[:i+n], data[i:]...)
			data = append([]byte(nil), data...)
		}
	}
	return data
}

// What has to come of loading.
const (
	mustFail = iota
	mayLoad
	mustBe // what parse makes of it
)

// judge tells what has to come of loading data.
func judge(data []byte) (verdict int, why string, f *file) {
	p := &parser{data: data}
	f = &file{}
	verdict = mustBe
	odd := func(format string, args ...any) {
		if verdict == mustBe {
			verdict, why = mayLoad, fmt.Sprintf(format, args...)
		}
	}
	bad := func(format string, args ...any) {
		if verdict != mustFail && p.err == nil {
			verdict, why = mustFail, fmt.Sprintf(format, args...)
		}
	}
	p.section("TD")
	names := map[string]bool{}
	for n := p.u8(); n > 0 && p.err == nil; n-- {
		t := [2]string{string(p.take(4)), string(p.take(4))}
		if names[t[1]] {
			odd("tag %q twice", t[1])
		}
		names[t[1]] = true
		f.Tags = append(f.Tags, t)
	}
	p.section("TI")
	for n := p.u32(); n > 0 && p.err == nil; n-- {
		var group [][]byte
		seen := map[string]bool{}
		for k := p.u16(); k > 0 && p.err == nil; k-- {
			size := p.u8()
			set := append([]byte(nil), p.take(size)...)
			if size != len(f.Sets)+1 {
				odd("a tag set of length %d in group %d", size, len(f.Sets))
			}
			for i, t := range set {
				if i > 0 && set[i-1] > t {
					odd("a tag set which is not in order")
				}
				if int(t) >= len(f.Tags) {
					bad("a tag set has tag %d of %d", t, len(f.Tags))
				}
			}
			if seen[string(set)] {
				odd("a tag set twice")
			}
			seen[string(set)] = true
			group = append(group, set)
		}
		f.Sets = append(f.Sets, group)
	}
	p.section("CD")
	for n := p.u8(); n > 0 && p.err == nil; n-- {
		var group [][]uint32
		seen := map[string]bool{}
		for k := p.u32(); k > 0 && p.err == nil; k-- {
			size := p.u8()
			var coll []uint32
			for i := 0; i < size && p.err == nil; i++ {
				s := p.u32()
				if i > 0 && coll[i-1] >= s {
					odd("a collection which is not in order")
				}
				if g, j := int(s>>16), int(s&0xffff); g >= len(f.Sets) || j >= len(f.Sets[g]) {
					bad("a collection has tag set %#x, which is not there", s)
				}
				coll = append(coll, s)
			}
			if size != len(f.Colls)+1 {
				odd("a collection of length %d in group %d", size, len(f.Colls))
			}
			if seen[fmt.Sprint(coll)] {
				odd("a collection twice")
			}
			seen[fmt.Sprint(coll)] = true
			group = append(group, coll)
		}
		f.Colls = append(f.Colls, group)
	}
	p.section("ID")
	n := p.u32()
	if n == 0 {
		bad("there is no root")
	}
	type edge struct {
		parent uint32
		letter int32
	}
	words := map[edge]bool{}
	for i := uint32(0); i < n && p.err == nil; i++ {
		node := fileNode{p.u32(), p.u32(), int32(p.u32()), p.u32()}
		if i == 0 {
			if node != (fileNode{}) {
				odd("the root is %v", node)
			}
		} else {
			e := edge{node.Parent, node.Letter}
			switch {
			case node.Parent >= i:
				bad("node %d is a child of node %d", i, node.Parent)
			case node.ID != i:
				bad("node %d says it is %d", i, node.ID)
			case words[e]:
				bad("two children of node %d have letter %d", node.Parent, node.Letter)
			}
			words[e] = true
			if c := node.Coll; c != 0 && (c>>16 == 0 || int(c>>16) > len(f.Colls) || int(c&0xffff) >= len(f.Colls[c>>16-1])) {
				bad("node %d has collection %#x, which is not there", i, c)
			}
		}
		f.Nodes = append(f.Nodes, node)
	}
	if p.err != nil {
		return mustFail, p.err.Error(), f
	}
	return verdict, why, f
}

// walkAll asks an index everything there is to ask of it.
func walkAll(idx *index.Index) error {
	n := idx.NodesCount()
	_ = idx.WordsCount()
	_ = idx.Tags()
	_ = idx.Children()
	for i := 0; i <= n+1; i++ {
		id := dag.ID(i)
		node, err := idx.Get(id)
		if err != nil {
			if i <= n {
				return pbt.Errf("there are %d nodes, but asking for node %d: %v", n, i, err)
			}
			continue
		}
		w := node.Word()
		_ = node.TagSets()
		_ = idx.GetChildrenMap(id)
		if s, ok := node.(fmt.Stringer); ok {
			_ = s.String()
		}
		if i > 0 {
			_, _ = idx.Variants(idx.GetItem(id).Item().Variants)
		}
		if w != "" {
			_, _ = idx.FetchString(w)
			_, _ = idx.FetchString(w + "x")
		}
	}
	return nil
}

func runRotten(ctx *pbt.Ctx, c rotten) error {
	return loadAnything(ctx, c.bytes(ctx), c.Target)
}

func loadAnything(ctx *pbt.Ctx, data []byte, into int) error {
	ctx.Exec(1)
	verdict, why, f := judge(data)
	idx := index.New()
	if into == 1 {
		idx = dirty(len(data) % 7)
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	err := idx.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(data)))
	runtime.ReadMemStats(&after)
	if used, most := after.TotalAlloc-before.TotalAlloc, uint64(32<<20+1024*len(data)); used > most {
		return pbt.Errf("loading %d bytes took %d bytes of memory", len(data), used)
	}
	switch {
	case verdict == mustFail && err == nil:
		return pbt.Errf("loaded without error, though %s", why)
	case verdict == mustBe && err != nil:
		return pbt.Errf("a good file does not load: %v", err)
	case err != nil:
		ctx.LabelIf(verdict == mayLoad, "odd one refused")
		ctx.LabelIf(verdict == mustFail, "refused")
		ctx.NonTrivialIf(len(f.Nodes) > 1)
		return nil
	}
	ctx.LabelIf(verdict == mayLoad, "odd one loaded")
	ctx.LabelIf(verdict == mustBe, "good one loaded")
	ctx.NonTrivialIf(verdict == mayLoad)
	if err = walkAll(idx); err != nil {
		return err
	}
	if verdict == mustBe {
		return f.model().everything(idx, 0)
	}
	again, err := dump(idx)
	if err != nil {
		return nil // what can not be written is refused
	}
	if err = load(index.New(), again); err != nil {
		return pbt.Errf("%s: loaded and saved, but then: %v", why, err)
	}
	return nil
}

func genRot(t *rapid.T) rot {
	return rot{
		Kind: rapid.IntRange(0, rotKinds-1).Draw(t, "kind"), At: rapid.IntRange(0, 1<<16).Draw(t, "at"), How: rapid.IntRange(0, 8).Draw(t, "how"),
		Val: rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, 2, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 1 << 24, 1 << 26, 1 << 31, 0xffffffff}), rapid.Uint32Range(0, 300)).Draw(t, "value"),
	}
}

type largeRotten struct {
	Counts counts
	Rot    rot
}

func i10() pbt.Property {
	return pbt.Property{
		ID:   "I10",
		Rule: "a file refused behind its first node, or one that loads though it is no file an index writes",
		Assumptions: []string{
			"a reader of one's own tells which files have to be refused; files with oddities that do no harm (order inside sets, repetitions, sets in other groups than that of their length, a used root) may be loaded or refused",
			"memory: what loading allocates, against 32 MB and 1 kB per byte of the file",
		},
		Shards: 4,
		Memory: 4 << 30,
		Facets: []pbt.Facet{
			pbt.Rapid("rotten", 24000, 900000, func(t *rapid.T) rotten {
				return rotten{genFile(t, rapid.Bool().Draw(t, "small")), rapid.SliceOfN(rapid.Custom(genRot), 1, 4).Draw(t, "rot"), rapid.IntRange(0, 5).Draw(t, "target")}
			}, runRotten),
			pbt.Rapid("one-field", 24000, 900000, func(t *rapid.T) rotten {
				r := genRot(t)
				r.Kind %= rotByte
				return rotten{genFile(t, rapid.Bool().Draw(t, "small")), []rot{r}, rapid.IntRange(0, 5).Draw(t, "target")}
			}, runRotten),
			pbt.Rapid("bytes", 8000, 400000, func(t *rapid.T) []byte {
				data := []byte("TD\x00")[:rapid.IntRange(0, 3).Draw(t, "start")]
				return append(data, rapid.SliceOfN(rapid.SampledFrom([]byte("\x00\x00\x00\x00\x00\x01\x01\x02\xffTIDC a")), 0, 120).Draw(t, "bytes")...)
			}, func(ctx *pbt.Ctx, data []byte) error { return loadAnything(ctx, data, 0) }),
			pbt.Enum("large", func(tier string, yield func(largeRotten) bool) {
				sizes := []counts{{Tags: 255, Sets: 400, Colls: 70, Nodes: 5000}, {Tags: 255, Sets: 400, Colls: 70, Nodes: 70000}}
				if tier == "thorough" {
					sizes = append(sizes, counts{Tags: 255, Sets: 20000, Colls: 300, Nodes: 70000}, counts{Tags: 255, Sets: 32000, Colls: 65000, Nodes: 200000})
				}
				for no, size := range sizes {
					for kind := range fieldKinds {
						for i := 0; i < 6; i++ {
							if tier != "thorough" && no > 0 && i%3 == 1 {
								continue
							}
							if !yield(largeRotten{size, rot{Kind: kind, At: -1 - i, How: []int{0, 3, 7, 2, 0, 5}[i], Val: uint32(i)}}) {
								return
							}
						}
					}
				}
			}, func(ctx *pbt.Ctx, c largeRotten) error {
				f := c.Counts.build()
				n := 0
				for _, x := range f.fields() {
					if x.kind == c.Rot.Kind {
						n++
					}
				}
				if n == 0 {
					return nil
				}
				r := c.Rot
				r.At = []int{n - 1, n - 1, n - 1, n - 1, n / 2, n * 2 / 3}[-1-r.At] // late ones
				return loadAnything(ctx, rotBytes(ctx, f, []rot{r}), 0)
			}),
			pbt.Enum("every-byte", func(tier string, yield func(rotten) bool) {
				for seed := 0; seed < 2; seed++ {
					s := fileSpec{
						Tags: []tagBytes{{[]byte("POST"), []byte("NOUN")}, {[]byte("    "), []byte("POST")}, {[]byte("NMbr"), []byte("sing")}},
						Sets: [][][]byte{{{0}, {1}}, {{0, 1}, {1, 2}}}, Colls: [][][]int{{{0}, {2}}, {{0, 3}}},
						Nodes: []nodeSpec{{0, 'a', 1}, {1, 'b', 2}, {1, 'c', 0}, {3, 'd', 3}, {0, 'b', 1}},
					}
					s.Nodes = s.Nodes[:5-3*seed]
					n := len(s.build().bytes())
					for i := 0; i < n; i++ {
						for _, v := range []uint32{0, 1, 2, 3, 4, 5, 6, 127, 128, 254, 255} {
							if !yield(rotten{File: s, Rot: []rot{{Kind: rotByte, At: i, Val: v}}}) {
								return
							}
						}
					}
				}
			}, runRotten),
		},
	}
}
