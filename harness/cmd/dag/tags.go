package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/collide"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/xio"

	"pgregory.net/rapid"
)

const marker = "----"

// name is a tag name in hexadecimal: names need not be valid text.
type name string

func mkName(s string) name { return name(hex.EncodeToString([]byte(s))) }

func (n name) str() string {
	b, err := hex.DecodeString(string(n))
	pbt.Must(err)
	return string(b)
}

type tagSpec struct{ Parent, Name name }

func (t tagSpec) String() string { return fmt.Sprintf("%q<-%q", t.Parent.str(), t.Name.str()) }

func genName(t *rapid.T, label string) name {
	switch rapid.IntRange(0, 9).Draw(t, label+" kind") {
	case 0:
		return mkName(rapid.SampledFrom([]string{"", "----", "    ", "   ", "-", "--", "---", "-----", " -- ", "---x", "x---", "\x00\x00\x00\x00", "a\x00bc"}).Draw(t, label))
	case 1: // any bytes
		return mkName(string(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, label)))
	case 4: // one of two a hash does not tell apart
		a, b := collide.Pair(rapid.IntRange(0, collide.Kinds-1).Draw(t, label+" hash"), uint32(rapid.IntRange(0, 1).Draw(t, label+" seed")), 'A', 'z', collide.Bytes1)
		if rapid.Bool().Draw(t, label+" second") {
			a = b
		}
		return mkName(string(collide.Bytes1.Bytes(a)))
	case 2:
		return mkName(rapid.StringN(0, 6, 12).Draw(t, label))
	case 3:
		return mkName(rapid.StringMatching(`[A-Za-z0-9]{0,6}`).Draw(t, label))
	default: // few, similar names
		return mkName(rapid.SampledFrom([]string{"NOUN", "NOUn", "noun", "NOU", "NOUNS", "UNON", "POST", "nomn", "nomm", "ПО", "по", "1per", "2per", "a", "ab", "abc", "abcd", "abce", "bbcd"}).Draw(t, label))
	}
}

// genGood makes an expressible name: empty or of 4 bytes.
func genGood(t *rapid.T, label string) name {
	switch rapid.IntRange(0, 7).Draw(t, label+" kind") {
	case 0:
		return mkName(rapid.SampledFrom([]string{"", "----", "    ", "   x", "x   ", "  x ", "---x", "x---", " ---", "\x00\x00\x00\x00", "\xff\xff\xff\xff"}).Draw(t, label))
	case 1:
		return mkName(string(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, label)))
	case 2:
		return mkName(rapid.SampledFrom([]string{"ПО", "по", "я12", "€a"}).Draw(t, label))
	default:
		return mkName(rapid.StringMatching(`[A-Za-z]{3}[A-Za-z0-9]`).Draw(t, label))
	}
}

func (t tagSpec) tag() dag.Tag {
	return dag.Tag{Parent: dag.TagName(t.Parent.str()), Name: dag.TagName(t.Name.str())}
}

func orMarker(s string) string {
	if s == "" {
		return marker
	}
	return s
}

// ---------------------------------------------------------------- D01

const (
	opIndex = iota
	opFind
	opGet
	opFill // registers new names until Arg are known
)

type tagOp struct {
	K            int
	Name, Parent name `json:",omitempty"`
	Arg          int  `json:",omitempty"`
}

type d01Case struct {
	Initial []tagSpec
	Fill    int // further initial tags, made up
	Ops     []tagOp
	shared  []dag.Tag // D06: the list several registries are made from
	read    bool      // D06: read from its bytes (all names can be written)
}

func filler(i int) tagSpec {
	return tagSpec{Parent: mkName("fill"), Name: mkName(fmt.Sprintf("f%03d", i))}
}

func d01() pbt.Property {
	return pbt.Property{
		ID: "D01",
		Rule: "cases are a list of initial tags (none to 256) and a history of up to 40 registrations, lookups by name and by id over few similar names and arbitrary ones; " +
			"after every step every known name and id is looked up; non-trivial: at least two registrations",
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.Rapid("histories", 24000, 800000, func(t *rapid.T) d01Case {
				var c d01Case
				if rapid.Bool().Draw(t, "from a list") {
					c.Initial = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tagSpec {
						return tagSpec{genName(t, "parent"), genName(t, "name")}
					}), 0, 6).Draw(t, "initial")
				}
				switch rapid.IntRange(0, 9).Draw(t, "fill") {
				case 0:
					c.Fill = rapid.IntRange(244, 256).Draw(t, "almost full") - len(c.Initial)
				case 1:
					c.Fill = rapid.IntRange(1, 140).Draw(t, "filled")
				}
				c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tagOp {
					o := tagOp{K: rapid.SampledFrom([]int{opIndex, opIndex, opIndex, opIndex, opFind, opFind, opGet, opFill}).Draw(t, "op")}
					switch o.K {
					case opIndex:
						o.Parent = genName(t, "parent")
						o.Name = genName(t, "name")
					case opFind:
						o.Name = genName(t, "name")
					case opGet:
						o.Arg = rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 255)).Draw(t, "id")
					case opFill:
						o.Arg = rapid.SampledFrom([]int{3, 127, 128, 129, 253, 254, 255, 256}).Draw(t, "upto")
					}
					return o
				}), 1, 40).Draw(t, "ops")
				return c
			}, d01Run),
			pbt.Enum("full", func(tier string, yield func(d01Case) bool) {
				for n := 250; n <= 256; n++ {
					for first := 0; first < 3; first++ {
						c := d01Case{Fill: n * first / 2}
						if c.Fill > n {
							c.Fill = n
						}
						c.Ops = []tagOp{{K: opFill, Arg: n}}
						for i := 0; i < 8; i++ {
							c.Ops = append(c.Ops, tagOp{K: opIndex, Name: mkName(fmt.Sprintf("n%03d", i)), Parent: mkName("")})
						}
						c.Ops = append(c.Ops, tagOp{K: opIndex, Name: mkName("f000"), Parent: mkName("othr")}, tagOp{K: opFind, Name: mkName("n000")}, tagOp{K: opGet, Arg: 255})
						if !yield(c) {
							return
						}
					}
				}
			}, d01Run),
		},
	}
}

func d01Run(ctx *pbt.Ctx, c d01Case) error {
	type rec struct{ parent, name string }
	var model []rec
	first := map[string]int{}
	learn := func(parent, nm string) {
		if _, ok := first[nm]; !ok {
			first[nm] = len(model)
		}
		model = append(model, rec{orMarker(parent), nm})
	}
	var list []dag.Tag
	for _, t := range c.Initial {
		list = append(list, t.tag())
	}
	for i := 0; i < c.Fill; i++ {
		list = append(list, filler(i).tag())
	}
	for _, t := range list {
		if c.read {
			learn(nameBack(string(t.Parent)), nameBack(string(t.Name)))
			continue
		}
		learn(string(t.Parent), string(t.Name))
	}
	if c.shared != nil {
		list = c.shared
	}
	given := append([]dag.Tag{}, list...)
	ctx.Turn()
	idx := dag.NewIndex(list...)
	if c.read {
		idx = nil
		if err := idx.BinaryReadFrom(binutils.NewBinaryReader(xio.Turning{Turn: ctx.Turn, R: bytes.NewReader(registryBytes(c.Initial))})); err != nil {
			return pbt.Errf("a registry of %d tags is not read: %v", len(list), err)
		}
	}
	for i := range given {
		if list[i] != given[i] {
			return pbt.Errf("making a registry changed tag %d of the list from %q to %q", i, given[i], list[i])
		}
	}
	ctx.LabelIf(len(c.Initial) > 0, "from a list")

	verify := func(after string) error {
		if idx.Len() != len(model) {
			return pbt.Errf("after %s: %d tags, expected %d", after, idx.Len(), len(model))
		}
		for i, m := range model {
			if got, ok := idx.Get(dag.TagID(i)); !ok || string(got.Name) != m.name || string(got.Parent) != m.parent {
				return pbt.Errf("after %s: id %d gives %q<-%q (found: %v), registered %q<-%q", after, i, got.Parent, got.Name, ok, m.parent, m.name)
			}
		}
		for i := len(model); i < len(model)+3 && i < 256; i++ {
			if got, ok := idx.Get(dag.TagID(i)); ok {
				return pbt.Errf("after %s: unknown id %d gives %q", after, i, got.Name)
			}
		}
		for nm, i := range first {
			if got, ok := idx.Find(dag.TagName(nm)); !ok || int(got) != i || int(got.Uint8()) != i {
				return pbt.Errf("after %s: %q found: %v with id %d, registered under %d", after, nm, ok, got, i)
			}
		}
		return nil
	}
	if err := verify("the start"); err != nil {
		return err
	}
	registered := 0
	register := func(i int, parent, nm string) error {
		want, known := first[nm]
		full := !known && len(model) >= 256
		var got dag.TagID
		ctx.Exec(1)
		panicked, what := pbt.Catch(func() { got = idx.Index(dag.TagName(nm), dag.TagName(parent)) })
		registered++
		ctx.LabelIf(known, "registered again")
		ctx.LabelIf(full, "ids used up")
		switch {
		case full && !panicked:
			return pbt.Errf("op %d: all 256 ids are taken, yet the new name %q was given id %d", i, nm, got)
		case full:
			return nil
		case panicked:
			return pbt.Errf("op %d: registering %q panicked: %v", i, nm, what)
		}
		if !known {
			want = len(model)
			learn(parent, nm)
		}
		if int(got) != want {
			return pbt.Errf("op %d: %q (parent %q) registered as %d, expected %d (known before: %v)", i, nm, parent, got, want, known)
		}
		return nil
	}
	for i, o := range c.Ops {
		ctx.Turn()
		switch o.K {
		case opIndex:
			if err := register(i, o.Parent.str(), o.Name.str()); err != nil {
				return err
			}
		case opFill:
			for k := 0; len(model) < o.Arg; k++ {
				f := filler(k)
				if err := register(i, f.Parent.str(), f.Name.str()); err != nil {
					return err
				}
			}
		case opFind:
			ctx.Exec(1)
			want, known := first[o.Name.str()]
			if got, ok := idx.Find(dag.TagName(o.Name.str())); ok != known || ok && int(got) != want {
				return pbt.Errf("op %d: %q found: %v with id %d, expected %v with %d", i, o.Name.str(), ok, got, known, want)
			}
			ctx.LabelIf(!known, "search of an unknown name")
		case opGet:
			ctx.Exec(1)
			got, ok := idx.Get(dag.TagID(o.Arg))
			if ok != (o.Arg < len(model)) {
				return pbt.Errf("op %d: id %d of %d found: %v with %q", i, o.Arg, len(model), ok, got.Name)
			}
		}
		if err := verify(fmt.Sprintf("op %d (%v %q)", i, o.K, o.Name.str())); err != nil {
			return err
		}
	}
	ctx.Turn()
	if err := verify("all"); err != nil {
		return err
	}
	for i := range given {
		if list[i] != given[i] {
			return pbt.Errf("using a registry changed tag %d of the list it was made from: %q to %q", i, given[i], list[i])
		}
	}
	ctx.NonTrivialIf(registered >= 2)
	return nil
}

// ---------------------------------------------------------------- D02

type d02Case struct {
	Tags     []tagSpec
	Fill     int
	Prev     []tagSpec
	Trailing []byte
	Sizes    []int // D03
	WithEOF  bool
	Fault    int
	Kind     int // 0 registry, 1 tag, 2 name
}

func (c d02Case) all() []tagSpec {
	res := append([]tagSpec{}, c.Tags...)
	for i := 0; i < c.Fill; i++ {
		res = append(res, filler(i))
	}
	return res
}

func nameBytes(s string) []byte {
	if s == "" || s == marker {
		return []byte("    ")
	}
	return []byte(s)
}

func tagBytes(t tagSpec) []byte {
	return append(append([]byte{}, nameBytes(t.Parent.str())...), nameBytes(t.Name.str())...)
}

func nameBack(s string) string {
	if s == "" || s == "    " {
		return marker
	}
	return s
}

func expressible(s string) bool { return s == "" || len(s) == 4 }

func registryBytes(tags []tagSpec) []byte {
	res := []byte{byte(len(tags))}
	for _, t := range tags {
		res = append(res, tagBytes(t)...)
	}
	return res
}

func registryOf(tags []tagSpec) dag.Idx {
	res := make(dag.Idx, len(tags))
	for i, t := range tags {
		res[i] = t.tag()
	}
	return res
}

func sameTags(got []dag.Tag, want []tagSpec) error {
	if len(got) != len(want) {
		return pbt.Errf("%d tags, expected %d", len(got), len(want))
	}
	for i, w := range want {
		if string(got[i].Parent) != nameBack(w.Parent.str()) || string(got[i].Name) != nameBack(w.Name.str()) {
			return pbt.Errf("tag %d is %q<-%q, expected %q<-%q", i, got[i].Parent, got[i].Name, nameBack(w.Parent.str()), nameBack(w.Name.str()))
		}
	}
	return nil
}

func d02() pbt.Property {
	return pbt.Property{
		ID: "D02",
		Rule: "cases are lists of 0 to 255 tags with expressible names (letters, arbitrary bytes, marker-like ones), a previous target content and trailing bytes, " +
			"or names and registries of inexpressible length placed anywhere; non-trivial: at least one tag",
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.Rapid("round-trip", 20000, 600000, genCodec, d02Run),
			pbt.Rapid("refused", 15000, 400000, func(t *rapid.T) d02Bad {
				c := d02Bad{Bad: mkName(string(rapid.OneOf(
					rapid.SliceOfN(rapid.Byte(), 1, 12),
					rapid.Map(rapid.StringMatching(`[a-z ]{1,8}|-{1,9}|[яЯ]{1,4}`), func(s string) []byte { return []byte(s) }),
				).Filter(func(b []byte) bool { return len(b) != 4 }).Draw(t, "bad")))}
				c.Tags = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tagSpec {
					return tagSpec{genGood(t, "parent"), genGood(t, "name")}
				}), 0, 5).Draw(t, "tags")
				c.At = rapid.IntRange(0, len(c.Tags)).Draw(t, "at")
				c.InParent = rapid.Bool().Draw(t, "in parent")
				c.Other = genGood(t, "other")
				return c
			}, d02BadRun),
			pbt.Enum("sizes", func(tier string, yield func(int) bool) {
				for n := 0; n <= 520; n++ {
					if !yield(n) {
						return
					}
				}
			}, func(ctx *pbt.Ctx, n int) error {
				ctx.NonTrivialIf(n > 0)
				ctx.Exec(1)
				if n <= 255 {
					return d02Run(ctx, d02Case{Fill: n, Trailing: []byte{1, 2}})
				}
				var out bytes.Buffer
				if err := registryOf(d02Case{Fill: n}.all()).BinaryWriteTo(binutils.NewBinaryWriter(&out)); err == nil {
					return pbt.Errf("a registry of %d tags was written without an error (%d bytes, count byte %d)", n, out.Len(), out.Bytes()[0])
				}
				return nil
			}),
			pbt.Enum("name-bytes", func(tier string, yield func(int) bool) {
				for pos := 0; pos < 4; pos++ {
					for b := 0; b < 256; b++ {
						if !yield(pos<<8 | b) {
							return
						}
					}
				}
			}, func(ctx *pbt.Ctx, v int) error {
				ctx.NonTrivial()
				for _, base := range []string{"    ", "----", "NOUN", "\x00\x00\x00\x00"} {
					b := []byte(base)
					b[v>>8] = byte(v)
					if err := checkName(ctx, string(b)); err != nil {
						return err
					}
				}
				return nil
			}),
		},
	}
}

type d02Bad struct {
	Bad      name
	Tags     []tagSpec
	At       int
	InParent bool
	Other    name
}

func genCodec(t *rapid.T) d02Case {
	var c d02Case
	tag := rapid.Custom(func(t *rapid.T) tagSpec { return tagSpec{genGood(t, "parent"), genGood(t, "name")} })
	c.Tags = rapid.SliceOfN(tag, 0, 8).Draw(t, "tags")
	switch rapid.IntRange(0, 11).Draw(t, "fill") {
	case 0:
		c.Fill = rapid.SampledFrom([]int{100, 119, 120, 127, 128, 200, 247}).Draw(t, "filled")
	case 1:
		c.Fill = 255 - len(c.Tags)
	}
	c.Prev = rapid.SliceOfN(tag, 0, 3).Draw(t, "prev")
	c.Trailing = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "trailing")
	c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3, 4, 5, 7, 64}), 0, 5).Draw(t, "sizes")
	c.WithEOF = rapid.Bool().Draw(t, "eof with data")
	c.Fault = rapid.IntRange(0, xio.WriteFaults-1).Draw(t, "write fault")
	c.Kind = rapid.IntRange(0, 2).Draw(t, "kind")
	return c
}

// checkName checks the codec of one expressible name alone.
func checkName(ctx *pbt.Ctx, s string) error {
	ctx.Exec(4)
	want := nameBytes(s)
	data, err := dag.TagName(s).MarshalBinary()
	if err != nil || !bytes.Equal(data, want) {
		return pbt.Errf("name %q marshalled as %x (%v), expected %x", s, data, err, want)
	}
	target := dag.TagName("prev")
	if err = target.UnmarshalBinary(data); err != nil || string(target) != nameBack(s) {
		return pbt.Errf("name %q unmarshalled as %q (%v), expected %q", s, target, err, nameBack(s))
	}
	for i := range data { // the bytes are the caller's
		data[i] = '#'
	}
	if string(target) != nameBack(s) {
		return pbt.Errf("name %q became %q when the bytes it was unmarshalled from were overwritten", s, target)
	}
	if again, err := dag.TagName(s).MarshalBinary(); err != nil || !bytes.Equal(again, want) {
		return pbt.Errf("name %q marshalled as %x (%v) once the bytes it had been marshalled as were overwritten, expected %x", s, again, err, want)
	}
	var out bytes.Buffer
	w := binutils.NewBinaryWriter(&out)
	if err = dag.TagName(s).BinaryWriteTo(w); err != nil || !bytes.Equal(out.Bytes(), want) {
		return pbt.Errf("name %q written as %x (%v), expected %x", s, out.Bytes(), err, want)
	}
	src := bytes.NewReader(append(append([]byte{}, want...), 'x'))
	target = "prev"
	if err = target.BinaryReadFrom(binutils.NewBinaryReader(src)); err != nil || string(target) != nameBack(s) || src.Len() != 1 {
		return pbt.Errf("name %q read as %q (%v) leaving %d bytes, expected %q and 1", s, target, err, src.Len(), nameBack(s))
	}
	return nil
}

func d02Run(ctx *pbt.Ctx, c d02Case) error {
	tags := c.all()
	ctx.NonTrivialIf(len(tags) > 0)
	ctx.LabelIf(len(tags) == 255, "255 tags")
	ctx.LabelIf(len(tags) > 127, "over 127 tags")
	ctx.Exec(2)
	for i, t := range tags {
		if i >= 10 {
			break
		}
		for _, s := range []string{t.Parent.str(), t.Name.str()} {
			if err := checkName(ctx, s); err != nil {
				return err
			}
		}
		var out bytes.Buffer
		if err := t.tag().BinaryWriteTo(binutils.NewBinaryWriter(&out)); err != nil || !bytes.Equal(out.Bytes(), tagBytes(t)) {
			return pbt.Errf("tag %v written as %x (%v), expected %x", t, out.Bytes(), err, tagBytes(t))
		}
		target := dag.Tag{Parent: "prev", Name: "prev"}
		src := bytes.NewReader(append(tagBytes(t), c.Trailing...))
		if err := target.BinaryReadFrom(binutils.NewBinaryReader(src)); err != nil || src.Len() != len(c.Trailing) {
			return pbt.Errf("tag %v read back: %v, %d bytes left of %d", t, err, src.Len(), len(c.Trailing))
		}
		if err := sameTags([]dag.Tag{target}, []tagSpec{t}); err != nil {
			return pbt.Errf("tag %v read back: %v", t, err)
		}
	}
	idx := registryOf(tags)
	var out bytes.Buffer
	w := binutils.NewBinaryWriter(&out)
	if err := idx.BinaryWriteTo(w); err != nil {
		return pbt.Errf("registry of %d tags: %v", len(tags), err)
	}
	want := registryBytes(tags)
	if !bytes.Equal(out.Bytes(), want) {
		return pbt.Errf("registry of %d tags written as %x, expected %x", len(tags), out.Bytes(), want)
	}
	for i, t := range tags {
		if idx[i] != t.tag() {
			return pbt.Errf("writing changed tag %d to %q<-%q", i, idx[i].Parent, idx[i].Name)
		}
	}
	src := bytes.NewReader(append(append([]byte{}, out.Bytes()...), c.Trailing...))
	target := registryOf(c.Prev)
	kept := target
	r := binutils.NewBinaryReader(src)
	if err := target.BinaryReadFrom(r); err != nil {
		return pbt.Errf("registry of %d tags read back: %v", len(tags), err)
	}
	for i, t := range c.Prev {
		if i >= len(kept) || kept[i] != t.tag() {
			return pbt.Errf("reading a registry into a variable changed the registry kept from before")
		}
	}
	if err := sameTags(target, tags); err != nil {
		return pbt.Errf("registry read back: %v", err)
	}
	rest, _ := io.ReadAll(r)
	if !bytes.Equal(rest, c.Trailing) {
		return pbt.Errf("registry read back: data following it %x became %x", c.Trailing, rest)
	}
	// ids: by name the first of that name
	first := map[string]int{}
	for i, t := range tags {
		nm := nameBack(t.Name.str())
		if _, ok := first[nm]; !ok {
			first[nm] = i
		}
	}
	for nm, i := range first {
		if got, ok := target.Find(dag.TagName(nm)); !ok || int(got) != i {
			return pbt.Errf("registry read back: %q has id %d (found: %v), expected %d", nm, got, ok, i)
		}
	}
	return nil
}

func d02BadRun(ctx *pbt.Ctx, c d02Bad) error {
	ctx.NonTrivial()
	ctx.LabelIf(c.InParent, "in a parent")
	bad := c.Bad.str()
	if expressible(bad) {
		return nil
	}
	ctx.Exec(4)
	if data, err := dag.TagName(bad).MarshalBinary(); err == nil {
		return pbt.Errf("name %q marshalled as %x", bad, data)
	}
	var out bytes.Buffer
	if err := dag.TagName(bad).BinaryWriteTo(binutils.NewBinaryWriter(&out)); err == nil {
		return pbt.Errf("name %q written as %x", bad, out.Bytes())
	}
	t := tagSpec{Parent: c.Other, Name: c.Bad}
	if c.InParent {
		t = tagSpec{Parent: c.Bad, Name: c.Other}
	}
	out.Reset()
	if err := t.tag().BinaryWriteTo(binutils.NewBinaryWriter(&out)); err == nil {
		return pbt.Errf("tag %v written as %x", t, out.Bytes())
	}
	tags := append(append(append([]tagSpec{}, c.Tags[:c.At]...), t), c.Tags[c.At:]...)
	out.Reset()
	if err := registryOf(tags).BinaryWriteTo(binutils.NewBinaryWriter(&out)); err == nil {
		return pbt.Errf("registry with %v at %d written as %x", t, c.At, out.Bytes())
	}
	return nil
}

// ---------------------------------------------------------------- D03

func d03() pbt.Property {
	return pbt.Property{
		ID:    "D03",
		Level: "fault_enumeration",
		Rule: "cases are a name, tag or registry, a way of splitting the stream and a way of failing; within a case every truncation and fault offset " +
			"is tried up to 160 bytes, 160 spread ones beyond; non-trivial: a name, a tag, or a registry with a tag",
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.Rapid("streams", 12000, 250000, genCodec, d03Run),
			pbt.Enum("small", func(tier string, yield func(d02Case) bool) {
				names := []name{mkName(""), mkName("NOUN")}
				for kind := 0; kind < 3; kind++ {
					for _, p := range names {
						for _, n := range names {
							for k := 0; k < 3; k++ {
								for _, sizes := range [][]int{nil, {1}, {2}, {3}, {1, 2}, {0, 1}, {4}, {5}, {3, 1}, {8, 1}} {
									for _, eof := range []bool{false, true} {
										for fault := 0; fault < 4; fault++ {
											c := d02Case{Kind: kind, Sizes: sizes, WithEOF: eof, Fault: fault}
											if fault%2 == 1 {
												c.Prev = []tagSpec{{mkName("prev"), mkName("prev")}}
											}
											for i := 0; i < k; i++ {
												c.Tags = append(c.Tags, tagSpec{p, n})
											}
											if kind != 0 && k != 1 {
												continue
											}
											if !yield(c) {
												return
											}
										}
									}
								}
							}
						}
					}
				}
			}, d03Run),
			pbt.Rapid("byte-strings", 4000, 100000, func(t *rapid.T) []byte {
				return rapid.SliceOfN(rapid.SampledFrom([]byte{' ', '-', 'N', 0, 0xff}), 0, 9).Draw(t, "data")
			}, func(ctx *pbt.Ctx, data []byte) error {
				ctx.NonTrivialIf(len(data) > 0)
				ctx.Exec(1)
				given := append([]byte{}, data...)
				target := dag.TagName("prev")
				err := target.UnmarshalBinary(data)
				if (err == nil) != (len(data) == 4) {
					return pbt.Errf("%x decoded as %q (%v)", data, target, err)
				}
				if err == nil && string(target) != nameBack(string(data)) {
					return pbt.Errf("%x decoded as %q", data, target)
				}
				if !bytes.Equal(given, data) {
					return pbt.Errf("decoding %x changed it to %x", given, data)
				}
				return nil
			}),
		},
	}
}

// codecCase gives the specified form, a reader into a target (returning what was read) and a writer.
func codecCase(c d02Case) (enc []byte, read func(io.Reader) (error, error), write func(io.Writer) error) {
	tags := c.all()
	if c.Kind != 0 && len(tags) == 0 {
		tags = []tagSpec{filler(0)}
	}
	switch c.Kind {
	case 1:
		t := tags[0]
		return tagBytes(t), func(r io.Reader) (error, error) {
				var target dag.Tag
				if len(c.Prev) > 0 {
					target = c.Prev[0].tag()
				}
				err := target.BinaryReadFrom(binutils.NewBinaryReader(r))
				return err, sameTags([]dag.Tag{target}, tags[:1])
			}, func(w io.Writer) error {
				return t.tag().BinaryWriteTo(binutils.NewBinaryWriter(w))
			}
	case 2:
		s := tags[0].Name.str()
		return nameBytes(s), func(r io.Reader) (error, error) {
				var target dag.TagName
				if len(c.Prev) > 0 {
					target = c.Prev[0].tag().Name
				}
				err := target.BinaryReadFrom(binutils.NewBinaryReader(r))
				if string(target) != nameBack(s) {
					return err, pbt.Errf("name %q, expected %q", target, nameBack(s))
				}
				return err, nil
			}, func(w io.Writer) error {
				return dag.TagName(s).BinaryWriteTo(binutils.NewBinaryWriter(w))
			}
	default:
		return registryBytes(tags), func(r io.Reader) (error, error) {
				target := registryOf(c.Prev)
				err := target.BinaryReadFrom(binutils.NewBinaryReader(r))
				return err, sameTags(target, tags)
			}, func(w io.Writer) error {
				return registryOf(tags).BinaryWriteTo(binutils.NewBinaryWriter(w))
			}
	}
}

func d03Run(ctx *pbt.Ctx, c d02Case) error {
	kind := [...]string{"registry", "tag", "name"}[c.Kind]
	enc, read, write := codecCase(c)
	ctx.Label("%s", kind)
	ctx.NonTrivialIf(len(enc) > 1)
	ctx.LabelIf(len(enc) > 160, "over 160 bytes")
	// pieces
	ctx.Exec(1)
	r := xio.NewChunks(append(append([]byte{}, enc...), c.Trailing...), c.Sizes, c.WithEOF)
	err, diff := read(r)
	if err != nil {
		return pbt.Errf("%s %x in pieces %v (end of file with data: %v), %d bytes following: %v", kind, enc, c.Sizes, c.WithEOF, len(c.Trailing), err)
	}
	if diff != nil {
		return pbt.Errf("%s %x in pieces %v: %v", kind, enc, c.Sizes, diff)
	}
	if r.Given != len(enc) {
		return pbt.Errf("%s %x in pieces %v: %d bytes consumed of %d", kind, enc, c.Sizes, r.Given, len(enc))
	}
	for _, at := range xio.Positions(len(enc), 160) {
		ctx.Exec(3)
		if err, _ = read(xio.NewChunks(enc[:at], c.Sizes, c.WithEOF)); err == nil {
			return pbt.Errf("%s %x cut to %d bytes (pieces %v, end of file with data: %v) accepted", kind, enc, at, c.Sizes, c.WithEOF)
		}
		failing := xio.NewChunks(enc, c.Sizes, c.WithEOF)
		failing.FailAt = at
		if err, _ = read(failing); err == nil {
			return pbt.Errf("%s %x from a stream failing at byte %d (pieces %v) accepted", kind, enc, at, c.Sizes)
		}
		out := &xio.Limited{Limit: at, Fault: xio.WriteFault(c.Fault)}
		if err = write(out); err == nil {
			return pbt.Errf("%s %x written to a destination failing at byte %d (fault %d): no error, %d bytes accepted", kind, enc, at, c.Fault, len(out.Got))
		}
	}
	return nil
}
