package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/xio"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- I05

// fileSpec describes a valid file; references are taken modulo what there is, so that it stays
// valid while it is made smaller.
type fileSpec struct {
	Tags   []tagBytes
	Sets   [][][]byte // by group; sizes and order are put right by build
	Colls  [][][]int  // by group, in numbers of the sets in file order
	Nodes  []nodeSpec
	Tail   []byte
	Target int
}

type tagBytes struct{ Parent, Name []byte }

type nodeSpec struct {
	Parent int
	Letter rune
	Coll   int // 0 for none, else number of the collection in file order from 1
}

func sortBytes(b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := 1; i < len(b); i++ {
		for j := i; j > 0 && b[j] < b[j-1]; j-- {
			b[j], b[j-1] = b[j-1], b[j]
		}
	}
	return b
}

// build makes the file: sets of the size of their group in ascending order, no duplicates.
func (s *fileSpec) build() *file {
	f := &file{}
	names := map[string]bool{}
	pad := func(b []byte) string {
		p := string(append(append([]byte(nil), b...), ' ', ' ', ' ', ' ')[:4])
		if p == marker {
			p = "    "
		}
		return p
	}
	for _, t := range s.Tags {
		name := pad(t.Name)
		if !names[name] && len(f.Tags) < 255 {
			names[name] = true
			f.Tags = append(f.Tags, [2]string{pad(t.Parent), name})
		}
	}
	var setIDs []uint32
	for g, group := range s.Sets {
		var sets [][]byte
		seen := map[string]bool{}
		for _, raw := range group {
			if len(f.Tags) == 0 || len(raw) == 0 {
				continue
			}
			set := make([]byte, g+1)
			for i := range set {
				set[i] = byte(int(raw[i%len(raw)]) % len(f.Tags))
			}
			set = sortBytes(set)
			if !seen[string(set)] {
				seen[string(set)] = true
				setIDs = append(setIDs, uint32(g)<<16|uint32(len(sets)))
				sets = append(sets, set)
			}
		}
		f.Sets = append(f.Sets, sets)
	}
	var collIDs []uint32
	for g, group := range s.Colls {
		var colls [][]uint32
		seen := map[string]bool{}
		for _, raw := range group {
			if len(setIDs) < g+1 || len(raw) == 0 {
				continue
			}
			// g+1 different sets, from the first one named
			picked := map[int]bool{}
			for i := 0; len(picked) < g+1; i++ {
				n := i
				if i < len(raw) {
					n = raw[i]
				} else {
					n = raw[0] + i
				}
				if n < 0 {
					n = -n
				}
				picked[n%len(setIDs)] = true
			}
			var coll []uint32
			for n, id := range setIDs { // set ids ascend in file order
				if picked[n] {
					coll = append(coll, id)
				}
			}
			if k := fmt.Sprint(coll); !seen[k] {
				seen[k] = true
				collIDs = append(collIDs, uint32(g+1)<<16|uint32(len(colls)))
				colls = append(colls, coll)
			}
		}
		f.Colls = append(f.Colls, colls)
	}
	f.Nodes = []fileNode{{}}
	taken := map[string]bool{}
	for _, n := range s.Nodes {
		parent := n.Parent % len(f.Nodes)
		if k := fmt.Sprint(parent, n.Letter); !taken[k] {
			taken[k] = true
			coll := uint32(0)
			if n.Coll > 0 && len(collIDs) > 0 {
				coll = collIDs[(n.Coll-1)%len(collIDs)]
			}
			f.Nodes = append(f.Nodes, fileNode{uint32(parent), uint32(len(f.Nodes)), n.Letter, coll})
		}
	}
	return f
}

func genFile(t *rapid.T, small bool) fileSpec {
	var s fileSpec
	maxTags, maxNodes := 12, 30
	if small {
		maxTags, maxNodes = 4, 8
	}
	letter := rapid.SampledFrom([]byte("abcABC -\x00\xff"))
	s.Tags = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tagBytes {
		return tagBytes{rapid.SliceOfN(letter, 4, 4).Draw(t, "parent"), rapid.SliceOfN(letter, 4, 4).Draw(t, "name")}
	}), 0, maxTags).Draw(t, "tags")
	if !small && rapid.IntRange(0, 14).Draw(t, "many tags") == 0 {
		n := rapid.SampledFrom([]int{127, 128, 200, 254, 255}).Draw(t, "tag count")
		for i := 0; len(s.Tags) < n; i++ {
			s.Tags = append(s.Tags, tagBytes{[]byte("many"), []byte{'m', byte('a' + i/26%26), byte('a' + i%26), byte('0' + i/676)}})
		}
	}
	groups := rapid.IntRange(0, 5).Draw(t, "set groups")
	if !small && rapid.IntRange(0, 24).Draw(t, "many groups") == 0 {
		groups = rapid.SampledFrom([]int{40, 254, 255}).Draw(t, "set group count")
	}
	for g := 0; g < groups; g++ {
		n := rapid.IntRange(0, 4).Draw(t, "sets in group")
		if groups > 5 && g < groups-1 {
			n = n / 3
		}
		s.Sets = append(s.Sets, rapid.SliceOfN(rapid.SliceOfN(rapid.Byte(), 1, 6), n, n).Draw(t, "sets"))
	}
	if !small && rapid.IntRange(0, 9).Draw(t, "full group") == 0 && len(s.Tags) > 3 && groups <= 5 { // over 256 sets of one length
		var group [][]byte
		for i := 0; i < 400; i++ {
			group = append(group, []byte{byte(i % len(s.Tags)), byte(i / 7), byte(i / 29), byte(i / 3)})
		}
		s.Sets = append(s.Sets, group)
	}
	cgroups := rapid.IntRange(0, 4).Draw(t, "collection groups")
	if !small && rapid.IntRange(0, 24).Draw(t, "many collection groups") == 0 {
		cgroups = rapid.SampledFrom([]int{40, 254, 255}).Draw(t, "collection group count")
	}
	for g := 0; g < cgroups; g++ {
		n := rapid.IntRange(0, 4).Draw(t, "collections in group")
		s.Colls = append(s.Colls, rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 999), 1, 5), n, n).Draw(t, "collections"))
	}
	s.Nodes = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) nodeSpec {
		return nodeSpec{
			rapid.IntRange(0, 40).Draw(t, "parent"),
			rapid.SampledFrom([]rune{'а', 'b', 'c', '丽', '𝛑', 0, -1, 0xd800, 0xfffd, 0x10ffff}).Draw(t, "letter"),
			rapid.IntRange(0, 20).Draw(t, "collection"),
		}
	}), 0, maxNodes).Draw(t, "nodes")
	s.Tail = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "tail")
	s.Target = rapid.IntRange(0, 2).Draw(t, "target")
	return s
}

func i05() pbt.Property {
	cfg := genConfig{ops: 30, odd: true, kinds: []string{"tag", "word", "word", "attach", "attach", "attach", "attach", "reload", "optimise"}}
	written := func(ctx *pbt.Ctx, h history) error {
		e := newEngine(ctx, &h)
		if err := e.run(); err != nil {
			return err
		}
		data, err := dump(e.idx)
		if err != nil {
			return pbt.Errf("writing: %v", err)
		}
		f, err := parse(data)
		if err != nil {
			return pbt.Errf("the written index does not have the layout: %v", err)
		}
		if !bytes.Equal(f.bytes(), data) {
			return pbt.Errf("the written index differs from its layout at byte %d", firstDiff(f.bytes(), data))
		}
		e.labels(ctx)
		ctx.NonTrivialIf(e.rich())
		ctx.Exec(1)
		return e.m.same(f)
	}
	return pbt.Property{
		ID:          "I05",
		Rule:        "a written index with a node of several children and a word of several tag sets; a file with at least 2 words using collections; for 'refused' and 'count' every case",
		Assumptions: append([]string{"tag names of 4 bytes or empty; files whose references all resolve, words named once, parents before children"}, histAssumptions...),
		Shards:      4,
		Facets: []pbt.Facet{
			pbt.Rapid("written", 7200, 240000, func(t *rapid.T) history { return genHistory(t, cfg) }, written),
			pbt.Rapid("written-bulk", 360, 7200, func(t *rapid.T) history {
				c := cfg
				c.ops, c.bulk, c.kinds = 6, 1200, []string{"bulk", "attach", "word", "optimise", "reload"}
				return genHistory(t, c)
			}, written),
			pbt.Enum("written-large", bulkCases(), written),
			pbt.Rapid("load", 9600, 300000, func(t *rapid.T) fileSpec { return genFile(t, false) }, runFile),
			pbt.Enum("count", countCases, runCounts),
			pbt.Enum("refused", refusedCases, runRefused),
		},
	}
}

func runFile(ctx *pbt.Ctx, s fileSpec) error {
	f := s.build()
	data := f.bytes()
	source := bytes.NewReader(append(append([]byte(nil), data...), s.Tail...))
	idx := index.New()
	if s.Target == 1 {
		idx = dirty(len(s.Tail))
	}
	if err := idx.BinaryReadFrom(binutils.NewBinaryReader(source)); err != nil {
		return pbt.Errf("a valid file does not load: %v", err)
	}
	if source.Len() != len(s.Tail) {
		return pbt.Errf("loading consumed %d bytes of %d", len(data)+len(s.Tail)-source.Len(), len(data))
	}
	m := f.model()
	if err := m.everything(idx, 0); err != nil {
		return pbt.Errf("loaded: %v", err)
	}
	for i := 1; i < len(f.Nodes); i++ {
		if got := uint32(idx.GetItem(dag.ID(i)).Item().Variants); got != f.Nodes[i].Coll {
			return pbt.Errf("node %d loaded with collection %#x, file says %#x", i, got, f.Nodes[i].Coll)
		}
	}
	sets := idx.TagSetIndex()
	for g, group := range f.Sets {
		for i, want := range group {
			id := index.TagSetID(uint32(g)<<16 | uint32(i))
			got, ok := sets.Get(id)
			if !ok || len(got) != len(want) {
				return pbt.Errf("tag set %#x loaded as %v (%v), file says %v", id, got, ok, want)
			}
			for j := range want {
				if byte(got[j]) != want[j] {
					return pbt.Errf("tag set %#x loaded as %v, file says %v", id, got, want)
				}
			}
		}
	}
	for g, group := range f.Colls {
		for i, want := range group {
			id := index.VariantID(uint32(g+1)<<16 | uint32(i))
			got, err := idx.Variants(id)
			if err != nil || len(got) != len(want) {
				return pbt.Errf("collection %#x loaded as %v (%v), file says %v", id, got, err, want)
			}
			for j := range want {
				if uint32(got[j]) != want[j] {
					return pbt.Errf("collection %#x loaded as %v, file says %v", id, got, want)
				}
			}
		}
		if _, err := idx.Variants(index.VariantID(uint32(g+1)<<16 | uint32(len(group)))); err == nil {
			return pbt.Errf("a collection beyond the %d of group %d was found", len(group), g)
		}
	}
	again, err := dump(idx)
	if err != nil {
		return pbt.Errf("writing the loaded file: %v", err)
	}
	if !bytes.Equal(again, data) {
		return pbt.Errf("written again, the file differs at byte %d of %d/%d", firstDiff(again, data), len(again), len(data))
	}
	ctx.NonTrivialIf(m.words() >= 2)
	ctx.LabelIf(len(f.Tags) >= 200, "200 tags and more")
	ctx.LabelIf(len(f.Sets) >= 254, "254 set groups and more")
	ctx.LabelIf(len(f.Colls) >= 254, "254 collection groups and more")
	ctx.LabelIf(f.unusedCollections() > 0, "unused collections")
	ctx.LabelIf(len(s.Tail) > 0, "trailing data")
	ctx.LabelIf(s.Target == 1, "into a used index")
	for _, g := range f.Sets {
		ctx.LabelIf(len(g) == 0, "empty set group")
		ctx.LabelIf(len(g) > 256, "set group over 256")
	}
	ctx.Exec(2)
	return nil
}

// counts is a file whose counts are at chosen values.
type counts struct{ Tags, Sets, Groups, Colls, Nodes int }

func countCases(tier string, yield func(counts) bool) {
	list := []counts{
		{}, {Tags: 1}, {Tags: 255}, {Tags: 255, Sets: 255}, {Tags: 255, Sets: 256}, {Tags: 255, Sets: 257},
		{Tags: 3, Groups: 255}, {Tags: 3, Groups: 256}, {Tags: 3, Groups: 300}, {Tags: 255, Sets: 20000, Nodes: 10},
		{Tags: 255, Sets: 400, Colls: 255, Nodes: 300}, {Tags: 255, Sets: 400, Colls: 256, Nodes: 300}, {Tags: 255, Sets: 400, Colls: 70, Nodes: 70000},
		{Tags: 255, Sets: 32000, Colls: 65000, Nodes: 65600},
	}
	if tier == "thorough" {
		list = append(list, counts{Tags: 255, Sets: 32640, Colls: 65535, Nodes: 200000}, counts{Tags: 255, Sets: 32640, Colls: 65536, Nodes: 200000}, counts{Tags: 3, Groups: 65535})
	}
	for _, c := range list {
		if !yield(c) {
			return
		}
	}
}

func (c counts) build() *file {
	f := &file{}
	for i := 0; i < c.Tags; i++ {
		f.Tags = append(f.Tags, [2]string{"prnt", fmt.Sprintf("t%03d", i)})
	}
	if c.Groups > 0 { // one set in the last group, none before
		f.Sets = make([][][]byte, c.Groups)
		if c.Groups <= 255 {
			f.Sets[c.Groups-1] = [][]byte{make([]byte, c.Groups)}
		}
	}
	if c.Sets > 0 { // sets of two tags
		var group [][]byte
		for a := 0; a < c.Tags && len(group) < c.Sets; a++ {
			for b := a; b < c.Tags && len(group) < c.Sets; b++ {
				group = append(group, []byte{byte(a), byte(b)})
			}
		}
		for i, j := 0, len(group)-1; i < j; i, j = i+2, j-2 { // not in order
			group[i], group[j] = group[j], group[i]
		}
		f.Sets = [][][]byte{nil, group}
	}
	if c.Colls > 0 && len(f.Sets) == 2 { // collections of one and of two sets
		n := uint32(len(f.Sets[1]))
		var one, two [][]uint32
		for i := uint32(0); int(i) < c.Colls && i < n; i++ {
			one = append(one, []uint32{1<<16 | (i*7)%n})
		}
		if n%7 == 0 {
			for i := range one {
				one[i][0] = 1<<16 | uint32(i)
			}
		}
		for a := uint32(0); a < n && len(two) < c.Colls; a++ {
			for b := a + 1; b < n && b < a+4 && len(two) < c.Colls; b++ {
				two = append(two, []uint32{1<<16 | a, 1<<16 | b})
			}
		}
		f.Colls = [][][]uint32{one, two}
	}
	f.Nodes = []fileNode{{}}
	for i := 1; i <= c.Nodes; i++ {
		n := fileNode{Parent: uint32(i / 40), ID: uint32(i), Letter: int32('а' + i%40)}
		if len(f.Colls) == 2 {
			switch {
			case i%3 == 0 && len(f.Colls[1]) > 0:
				n.Coll = 2<<16 | uint32((i/3)%len(f.Colls[1]))
			case i%3 == 1 && len(f.Colls[0]) > 0:
				n.Coll = 1<<16 | uint32((i/3)%len(f.Colls[0]))
			}
		}
		f.Nodes = append(f.Nodes, n)
	}
	return f
}

func runCounts(ctx *pbt.Ctx, c counts) error {
	f := c.build()
	data := f.bytes()
	idx := index.New()
	if err := load(idx, data); err != nil {
		return pbt.Errf("a valid file does not load: %v", err)
	}
	m := f.model()
	if err := m.everything(idx, 5000); err != nil {
		return pbt.Errf("loaded: %v", err)
	}
	again, err := dump(idx)
	if err != nil {
		return pbt.Errf("writing the loaded file: %v", err)
	}
	if !bytes.Equal(again, data) {
		return pbt.Errf("written again, the file differs at byte %d of %d/%d", firstDiff(again, data), len(again), len(data))
	}
	ctx.NonTrivial()
	ctx.Exec(2)
	return nil
}

// refusal is an index with one count at or beyond its field.
type refusal struct {
	Kind string // tags, set, collection, group
	N    int
}

func refusedCases(_ string, yield func(refusal) bool) {
	for _, r := range []refusal{
		{"tags", 254}, {"tags", 255}, {"tags", 256},
		{"set", 254}, {"set", 255}, {"set", 256}, {"set", 257}, {"set", 300}, {"set", 512},
		{"collection", 254}, {"collection", 255}, {"collection", 256}, {"collection", 257},
		{"group", 65534}, {"group", 65535}, {"group", 65536},
		{"name", 1}, {"name", 3}, {"name", 4}, {"name", 5}, {"name", 8},
	} {
		if !yield(r) {
			return
		}
	}
}

func runRefused(ctx *pbt.Ctx, r refusal) error {
	idx, m := index.New(), newModel()
	limit := 255
	tag := func(name string) dag.TagName {
		idx.TagID(dag.TagName(name), "prnt")
		m.tag(name, "prnt")
		return dag.TagName(name)
	}
	attach := func(word string, names ...dag.TagName) error {
		n, err := idx.AddString(word)
		if err != nil {
			return err
		}
		var ids []int
		for _, name := range names {
			ids = append(ids, m.ids[name])
		}
		m.nodes[m.addTo(0, []rune(word))].sets[setKey(ids)] = true
		return n.AddTagSet(names...)
	}
	var err error
	switch r.Kind {
	case "tags":
		for i := 0; i < r.N; i++ {
			tag(fmt.Sprintf("t%03d", i))
		}
		err = attach("word", "t000")
	case "set":
		a, b := tag("aaaa"), tag("bbbb")
		names := []dag.TagName{b}
		for len(names) < r.N {
			names = append(names, a)
		}
		err = attach("word", names...)
	case "collection":
		var names []dag.TagName
		for i := 0; i < 40; i++ {
			names = append(names, tag(fmt.Sprintf("t%03d", i)))
		}
	pairs:
		for a := range names {
			for b := a; b < len(names); b++ {
				if err = attach("word", names[a], names[b]); err != nil || len(m.nodes[4].sets) == r.N {
					break pairs
				}
			}
		}
	case "name":
		name := "abcdefgh"[:r.N]
		limit = 4
		err = attach("word", tag(name))
	case "group": // load a full group and add to it
		limit = 65535
		f := &file{Nodes: []fileNode{{}}, Sets: [][][]byte{nil, nil, nil}}
		for i := 0; i < 255; i++ {
			f.Tags = append(f.Tags, [2]string{"prnt", fmt.Sprintf("t%03d", i)})
		}
	fill:
		for c := 0; c < 255; c++ {
			for b := 0; b <= c; b++ {
				for a := 0; a <= b; a++ {
					if len(f.Sets[2]) == r.N-1 {
						break fill
					}
					f.Sets[2] = append(f.Sets[2], []byte{byte(a), byte(b), byte(c)})
				}
			}
		}
		if err = load(idx, f.bytes()); err != nil {
			return pbt.Errf("a valid file does not load: %v", err)
		}
		m = f.model()
		err = attach("word", "t254", "t254", "t254")
	}
	if err != nil {
		return pbt.Errf("building: %v", err)
	}
	data, err := dump(idx)
	good := r.N <= limit
	if r.Kind == "name" {
		good = r.N == 4
	}
	ctx.NonTrivial()
	ctx.LabelIf(!good, "refused")
	ctx.Exec(1)
	if !good {
		if err == nil {
			return pbt.Errf("%d (%s) were written without error in %d bytes", r.N, r.Kind, len(data))
		}
		return nil
	}
	if err != nil {
		return pbt.Errf("writing %d (%s): %v", r.N, r.Kind, err)
	}
	f, err := parse(data)
	if err != nil {
		return pbt.Errf("the written index does not have the layout: %v", err)
	}
	if err = m.same(f); err != nil {
		return err
	}
	loaded := index.New()
	if err = load(loaded, data); err != nil {
		return pbt.Errf("reading back: %v", err)
	}
	return m.everything(loaded, 0)
}

// ---------------------------------------------------------------- I06

// damaged is a valid file and the way it is delivered.
type damaged struct {
	File    fileSpec
	Chunks  []int
	WithEOF bool
}

func genDamaged(t *rapid.T) damaged {
	d := damaged{File: genFile(t, true)}
	if rapid.Bool().Draw(t, "chunked") {
		d.Chunks = rapid.SliceOfN(rapid.IntRange(0, 9), 1, 5).Draw(t, "chunks")
	}
	d.WithEOF = rapid.Bool().Draw(t, "with eof")
	return d
}

func target(kind int) *index.Index {
	if kind == 1 {
		return dirty(1)
	}
	return index.New()
}

func tryLoad(idx *index.Index, r io.Reader) error {
	return idx.BinaryReadFrom(binutils.NewBinaryReader(r))
}

func i06() pbt.Property {
	nontrivial := func(ctx *pbt.Ctx, f *file) {
		ctx.NonTrivialIf(len(f.Tags) > 0 && len(f.Nodes) > 2)
		n := 0
		for _, g := range f.Colls {
			n += len(g)
		}
		ctx.LabelIf(n > 0, "with collections")
	}
	return pbt.Property{
		ID:    "I06",
		Level: "fault_enumeration",
		Rule:  "the file has a tag and at least two nodes; executions count loads and writes, one per fault position",
		Assumptions: []string{
			"faults: cut at every byte, failure at every byte, any splitting, wrong, missing, repeated or exchanged section names; other damage (arbitrary counts, references) is not claimed",
			"files up to 600 bytes have every position tried, longer ones 300 positions",
		},
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.Rapid("cut", 1500, 36000, genDamaged, func(ctx *pbt.Ctx, d damaged) error {
				f := d.File.build()
				data := f.bytes()
				nontrivial(ctx, f)
				for _, n := range xio.Positions(len(data), 600) {
					ctx.Exec(1)
					if err := tryLoad(target(d.File.Target), xio.NewChunks(data[:n], d.Chunks, d.WithEOF)); err == nil {
						return pbt.Errf("cut to %d of %d bytes, the file loads without error", n, len(data))
					}
				}
				return nil
			}),
			pbt.Rapid("fail", 1200, 30000, genDamaged, func(ctx *pbt.Ctx, d damaged) error {
				f := d.File.build()
				data := f.bytes()
				nontrivial(ctx, f)
				for _, n := range xio.Positions(len(data), 600) {
					ctx.Exec(1)
					r := xio.NewChunks(data, d.Chunks, d.WithEOF)
					r.FailAt = n
					if err := tryLoad(target(d.File.Target), r); err == nil {
						return pbt.Errf("the stream fails at byte %d of %d, the file loads without error", n, len(data))
					}
				}
				return nil
			}),
			pbt.Rapid("split", 3000, 90000, func(t *rapid.T) damaged {
				d := genDamaged(t)
				if len(d.Chunks) == 0 {
					d.Chunks = []int{rapid.IntRange(1, 40).Draw(t, "piece")}
				}
				return d
			}, func(ctx *pbt.Ctx, d damaged) error {
				f := d.File.build()
				data := f.bytes()
				nontrivial(ctx, f)
				ctx.Exec(1)
				tail := append(append([]byte(nil), data...), d.File.Tail...)
				r := xio.NewChunks(tail, d.Chunks, d.WithEOF)
				idx := target(d.File.Target)
				if err := tryLoad(idx, r); err != nil {
					return pbt.Errf("in pieces of %v (last with EOF: %v) the file does not load: %v", d.Chunks, d.WithEOF, err)
				}
				if r.Given != len(data) {
					return pbt.Errf("loading consumed %d bytes of %d", r.Given, len(data))
				}
				return f.model().everything(idx, 0)
			}),
			pbt.Rapid("label", 2400, 72000, func(t *rapid.T) mislabelled {
				return mislabelled{
					File: genFile(t, true), Section: rapid.IntRange(0, 3).Draw(t, "section"), Kind: rapid.IntRange(0, 5).Draw(t, "kind"),
					Name: rapid.SampledFrom([]string{"", "T", "TD", "TI", "CD", "ID", "td", "ti", "cd", "id", "Td", "TDX", "TID", "CI", "DI", "I D", " TD", "ID ", "\xff", "TD\x01"}).Draw(t, "name"),
					With: rapid.IntRange(0, 3).Draw(t, "with"),
				}
			}, runMislabelled(nontrivial)),
			pbt.Rapid("write", 900, 24000, func(t *rapid.T) unwritable {
				return unwritable{genFile(t, true), xio.WriteFault(rapid.IntRange(0, xio.WriteFaults-1).Draw(t, "fault"))}
			}, func(ctx *pbt.Ctx, u unwritable) error {
				f := u.File.build()
				data := f.bytes()
				nontrivial(ctx, f)
				idx := index.New()
				if err := load(idx, data); err != nil {
					return pbt.Errf("a valid file does not load: %v", err)
				}
				for _, n := range xio.Positions(len(data), 600) {
					ctx.Exec(1)
					w := &xio.Limited{Limit: n, Fault: u.Fault}
					if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(w)); err == nil {
						return pbt.Errf("the destination fails at byte %d of %d (way %d), writing reports no error", n, len(data), u.Fault)
					}
				}
				w := &xio.Limited{Limit: len(data), Fault: u.Fault}
				if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(w)); err != nil || !bytes.Equal(w.Got, data) {
					return pbt.Errf("after failed attempts writing gives %d bytes of %d (%v)", len(w.Got), len(data), err)
				}
				return nil
			}),
			pbt.Enum("large", func(tier string, yield func(history) bool) {
				n := 3000
				if tier == "thorough" {
					n = 30000
				}
				for seed := 1; seed < 4; seed++ {
					if !yield(bulkHistory(n, seed)) {
						return
					}
				}
			}, func(ctx *pbt.Ctx, h history) error {
				e := newEngine(ctx, &h)
				if err := e.run(); err != nil {
					return err
				}
				data, err := dump(e.idx)
				if err != nil {
					return pbt.Errf("writing: %v", err)
				}
				ctx.NonTrivial()
				for _, n := range xio.Positions(len(data), 90) {
					ctx.Exec(2)
					if err := tryLoad(index.New(), xio.NewChunks(data[:n], nil, false)); err == nil {
						return pbt.Errf("cut to %d of %d bytes, the file loads without error", n, len(data))
					}
					if err := e.idx.BinaryWriteTo(binutils.NewBinaryWriter(&xio.Limited{Limit: n, Fault: xio.FailShort})); err == nil {
						return pbt.Errf("the destination is full after %d of %d bytes, writing reports no error", n, len(data))
					}
				}
				return nil
			}),
		},
	}
}

type unwritable struct {
	File  fileSpec
	Fault xio.WriteFault
}

type mislabelled struct {
	File          fileSpec
	Section, Kind int
	Name          string
	With          int
}

var sectionNames = [4]string{"TD", "TI", "CD", "ID"}

func runMislabelled(nontrivial func(*pbt.Ctx, *file)) func(*pbt.Ctx, mislabelled) error {
	return func(ctx *pbt.Ctx, c mislabelled) error {
		f := c.File.build()
		parts := f.sections()
		list := [][]byte{parts[0], parts[1], parts[2], parts[3]}
		what := ""
		switch c.Kind {
		case 0, 1: // another name
			if c.Name == sectionNames[c.Section] {
				return nil
			}
			list[c.Section] = append([]byte(c.Name+"\x00"), parts[c.Section][3:]...)
			what = fmt.Sprintf("section %s is named %q", sectionNames[c.Section], c.Name)
		case 2: // one bit of the name
			b := append([]byte(nil), parts[c.Section]...)
			b[c.With%2] ^= 1 << (len(c.Name) % 8)
			list[c.Section] = b
			what = fmt.Sprintf("section %s is named %q", sectionNames[c.Section], b[:2])
		case 3: // exchanged
			if c.With == c.Section {
				return nil
			}
			list[c.Section], list[c.With] = list[c.With], list[c.Section]
			what = fmt.Sprintf("sections %s and %s are exchanged", sectionNames[c.Section], sectionNames[c.With])
		case 4: // missing
			list = append(list[:c.Section], list[c.Section+1:]...)
			what = fmt.Sprintf("section %s is missing", sectionNames[c.Section])
		case 5: // repeated before itself
			if c.Section == 3 {
				return nil // what follows the last section is not read
			}
			list = append(list[:c.Section+1], append([][]byte{parts[c.Section]}, list[c.Section+1:]...)...)
			what = fmt.Sprintf("section %s is repeated", sectionNames[c.Section])
		}
		nontrivial(ctx, f)
		ctx.Exec(1)
		ctx.Label("kind %d", c.Kind)
		if err := tryLoad(target(c.File.Target), bytes.NewReader(bytes.Join(list, nil))); err == nil {
			return pbt.Errf("%s, the file loads without error", what)
		}
		return nil
	}
}
