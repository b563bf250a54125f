package main

import (
	"fmt"
	"sort"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/collide"
	"github.com/amarin/gomorphy/verif/pbt"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- I07

// content is the content of a tag set or collection: members as given, N members if N is greater
// (the rest continues from the last one, Fill apart).
type content struct {
	V    []int
	N    int    `json:",omitempty"`
	Fill int    `json:",omitempty"`
	Hash int    `json:",omitempty"` // the hash function it is not told apart from another by, 1 more
	Seed uint32 `json:",omitempty"`
}

func (c content) members() []int {
	if c.Hash > 0 {
		enc := []collide.Encoding{collide.Bytes1, collide.Big2, collide.Little2}[c.Seed/4%3]
		a, b := collide.Pair(c.Hash-1, c.Seed/2, 0, 255, enc)
		if c.Seed%2 == 1 {
			return b
		}
		return a
	}
	res := append([]int(nil), c.V...)
	for i := 0; len(res) < c.N; i++ {
		res = append(res, 7+i*c.Fill)
	}
	return res
}

// registry is the code under test behind one face.
type registry interface {
	index(members []int) uint32
	find(sorted []int) (uint32, bool)
	get(id uint32) ([]int, bool)
	known() ([]uint32, bool) // false: there is no list
	size() (int, bool)
}

type setRegistry struct{ r index.TagSetIndex }

func toSet(members []int) index.TagSet {
	res := make(index.TagSet, len(members))
	for i, m := range members {
		res[i] = dag.TagID(m)
	}
	return res
}

func fromSet(s index.TagSet) []int {
	res := make([]int, len(s))
	for i, m := range s {
		res[i] = int(m)
	}
	return res
}

func toColl(members []int) index.TagSetIDCollection {
	res := make(index.TagSetIDCollection, len(members))
	for i, m := range members {
		res[i] = index.TagSetID(m)
	}
	return res
}

func fromColl(s index.TagSetIDCollection) []int {
	res := make([]int, len(s))
	for i, m := range s {
		res[i] = int(m)
	}
	return res
}

func (s *setRegistry) index(m []int) uint32 { return uint32(s.r.Index(toSet(m))) }
func (s *setRegistry) find(m []int) (uint32, bool) {
	id, ok := s.r.Find(toSet(m))
	return uint32(id), ok
}
func (s *setRegistry) get(id uint32) ([]int, bool) {
	set, ok := s.r.Get(index.TagSetID(id))
	return fromSet(set), ok
}
func (s *setRegistry) known() ([]uint32, bool) {
	var res []uint32
	for _, id := range s.r.TableIDs() {
		res = append(res, uint32(id))
	}
	return res, true
}
func (s *setRegistry) size() (int, bool) { return s.r.Size(), true }

type setTable struct{ r index.TagSetTable }

func (s *setTable) index(m []int) uint32 { return uint32(s.r.Index(toSet(m))) }
func (s *setTable) find(m []int) (uint32, bool) {
	id, ok := s.r.Find(toSet(m))
	return uint32(id), ok
}
func (s *setTable) get(id uint32) ([]int, bool) {
	if id > 0xffff {
		return nil, false
	}
	set, ok := s.r.Get(index.TagSetSubID(id))
	return fromSet(set), ok
}
func (s *setTable) known() ([]uint32, bool) { return nil, false }
func (s *setTable) size() (int, bool)       { return s.r.Len(), true }

type collRegistry struct{ r index.VariantsIndex }

func (s *collRegistry) index(m []int) uint32 { return uint32(s.r.Index(toColl(m))) }
func (s *collRegistry) find(m []int) (uint32, bool) {
	id, ok := s.r.Find(toColl(m))
	return uint32(id), ok
}
func (s *collRegistry) get(id uint32) ([]int, bool) {
	c := s.r.Get(index.VariantID(id))
	return fromColl(c), len(c) > 0
}
func (s *collRegistry) known() ([]uint32, bool) {
	var res []uint32
	for _, id := range s.r.KnownID() {
		res = append(res, uint32(id))
	}
	return res, true
}
func (s *collRegistry) size() (int, bool) {
	n := 0
	for _, t := range s.r.Tables() {
		n += len(t)
	}
	return n, true
}

type collTable struct{ r index.VariantsTable }

func (s *collTable) index(m []int) uint32 { return uint32(s.r.Index(toColl(m))) }
func (s *collTable) find(m []int) (uint32, bool) {
	id, ok := s.r.Find(toColl(m))
	return uint32(id), ok
}
func (s *collTable) get(id uint32) ([]int, bool) {
	if id > 0xffff {
		return nil, false
	}
	c := s.r.Get(index.VariantSubID(id))
	return fromColl(c), len(c) > 0
}
func (s *collTable) known() ([]uint32, bool) {
	if len(s.r) == 0 {
		return nil, true
	}
	res := []uint32{0}
	for _, id := range s.r.Following(0) {
		res = append(res, uint32(id))
	}
	return res, true
}
func (s *collTable) size() (int, bool) { return len(s.r), true }

// Kinds of registries.
const (
	kSets = iota
	kSetTable
	kColls
	kCollTable
)

var kindNames = [4]string{"tag set index", "tag set table", "collection index", "collection table"}

// regOp is one step: i index, f find, g get.
type regOp struct {
	K  string
	C  int    // content number (modulo)
	P  int    // permutation of its members
	ID uint32 `json:",omitempty"`
}

// regHistory is a run on one registry.
type regHistory struct {
	Kind     int
	Len      int // tables: the length of all contents
	Prefill  int // contents there before, all of length Len
	Contents []content
	Ops      []regOp
}

// base is what the upper half of an id is for contents of length n; limit the greatest length.
func (h *regHistory) upper(n int) uint32 {
	switch h.Kind {
	case kSets:
		return uint32(n-1) << 16
	case kColls:
		return uint32(n) << 16
	}
	return 0
}

func (h *regHistory) limit() int {
	switch h.Kind {
	case kSets:
		return 65536
	case kColls:
		return 65535
	}
	return 1 << 30
}

// prefilled is the i-th content there before: sorted, distinct, in no particular order.
func (h *regHistory) prefilled(i int) []int {
	i = (i*7919 + 13) % 65537 // a permutation of 0..65536
	if h.Kind == kSets || h.Kind == kSetTable {
		// i in a number system of sorted triples: a <= b <= c by c, then b
		a, b, c := 0, 0, 0
		for n := i; ; c++ {
			size := (c + 1) * (c + 2) / 2
			if n < size {
				for b = 0; n > b; b++ {
					n -= b + 1
				}
				a = n
				break
			}
			n -= size
		}
		res := []int{a, b, c}
		for len(res) < h.Len {
			res = append(res, 255)
		}
		return res
	}
	res := []int{i}
	for len(res) < h.Len {
		res = append(res, 1<<20+len(res))
	}
	return res
}

func (h *regHistory) make() (registry, *regModel) {
	m := &regModel{h: h, ids: map[string]uint32{}, next: map[int]int{}, what: map[uint32][]int{}}
	var sets index.TagSetTable
	var colls index.VariantsTable
	if h.Prefill > 0 && h.Len < 3 && (h.Kind == kSets || h.Kind == kSetTable) {
		h.Len = 3
	}
	for i := 0; i < h.Prefill; i++ {
		p := h.prefilled(i)
		m.put(p)
		if h.Kind == kSets || h.Kind == kSetTable {
			sets = append(sets, toSet(p))
		} else {
			colls = append(colls, toColl(p))
		}
	}
	switch h.Kind {
	case kSets:
		r := index.TagSetIndex{}
		if h.Prefill > 0 {
			r = make(index.TagSetIndex, h.Len)
			r[h.Len-1] = sets
		}
		return &setRegistry{r}, m
	case kSetTable:
		return &setTable{sets}, m
	case kColls:
		r := index.VariantsIndex{}
		if h.Prefill > 0 {
			r = make(index.VariantsIndex, h.Len)
			r[h.Len-1] = colls
		}
		return &collRegistry{r}, m
	}
	return &collTable{colls}, m
}

type regModel struct {
	h    *regHistory
	ids  map[string]uint32
	next map[int]int
	what map[uint32][]int
}

func key(sorted []int) string { return fmt.Sprint(sorted) }

func (m *regModel) put(sorted []int) uint32 {
	if id, ok := m.ids[key(sorted)]; ok {
		return id
	}
	id := m.h.upper(len(sorted)) | uint32(m.next[len(sorted)])
	m.next[len(sorted)]++
	m.ids[key(sorted)] = id
	m.what[id] = sorted
	return id
}

// contentOf gives the members of a content, cut or stretched to the length of a table.
func (h *regHistory) contentOf(i int) []int {
	if h.Prefill > 0 && i%3 == 2 { // one that is there
		return h.prefilled(i * 31 % h.Prefill)
	}
	if len(h.Contents) == 0 {
		return []int{1}
	}
	v := h.Contents[i%len(h.Contents)].members()
	if h.Kind == kSetTable || h.Kind == kCollTable {
		for len(v) < h.Len {
			v = append(v, i%5)
		}
		v = v[:h.Len]
	}
	if h.Kind == kSets || h.Kind == kSetTable {
		for j := range v {
			v[j] &= 255
		}
		return v
	}
	seen := map[int]bool{} // collections have every member once
	for j := range v {
		for seen[v[j]] {
			v[j] = (v[j] + 1000003) & 0xffffffff
		}
		seen[v[j]] = true
	}
	return v
}

func permuted(v []int, p int) []int {
	res := append([]int(nil), v...)
	n := len(res)
	switch {
	case n < 2 || p == 0:
	case p == 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			res[i], res[j] = res[j], res[i]
		}
	default:
		for i := n - 1; i > 0; i-- {
			j := (p * (i + 3)) % (i + 1)
			res[i], res[j] = res[j], res[i]
		}
	}
	return res
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func short(v []int) string {
	if len(v) > 12 {
		return fmt.Sprintf("%v...(%d)", v[:12], len(v))
	}
	return fmt.Sprint(v)
}

func runRegistry(ctx *pbt.Ctx, h regHistory) error {
	r, m := h.make()
	name := kindNames[h.Kind]
	panics, repeats, orders := 0, 0, 0
	for i, o := range h.Ops {
		v := h.contentOf(o.C)
		given := permuted(v, o.P)
		sorted := append([]int(nil), v...)
		sort.Ints(sorted)
		id, known := m.ids[key(sorted)]
		switch o.K {
		case "i":
			var got uint32
			refused, reason := pbt.Catch(func() { got = r.index(given) })
			if len(v) == 0 {
				if h.Kind == kColls && (refused || got != 0) {
					return pbt.Errf("step %d: %s: the empty collection got id %#x (refused: %v)", i, name, got, reason)
				}
				continue
			}
			full := !known && (m.next[len(v)] == 65536 || len(v) > h.limit())
			switch {
			case full && !refused:
				return pbt.Errf("step %d: %s: no id is left for %s of length %d (%d stored), it got %#x", i, name, short(v), len(v), m.next[len(v)], got)
			case full:
				panics++
			case refused:
				return pbt.Errf("step %d: %s: registering %s panics: %v", i, name, short(given), reason)
			default:
				if known {
					repeats++
					if o.P > 0 && len(v) > 1 {
						orders++
					}
				}
				if want := m.put(sorted); got != want {
					return pbt.Errf("step %d: %s: %s got id %#x, want %#x", i, name, short(given), got, want)
				}
			}
			_ = id
		case "f":
			got, ok := r.find(sorted)
			if len(v) == 0 {
				if h.Kind == kColls && (got != 0 || !ok) {
					return pbt.Errf("step %d: %s: the empty collection is found as %#x (%v)", i, name, got, ok)
				}
				continue
			}
			if ok != known || known && got != id {
				return pbt.Errf("step %d: %s: %s is found as %#x (%v), want %#x (%v)", i, name, short(sorted), got, ok, id, known)
			}
		case "g":
			if err := m.check(r, o.ID, name); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		}
	}
	ctx.Exec(len(h.Ops))
	ctx.Label("%s", name)
	ctx.LabelIf(panics > 0, "refused: no id left")
	ctx.LabelIf(repeats > 0, "registered again")
	ctx.LabelIf(orders > 0, "registered again in another order")
	ctx.LabelIf(h.Prefill > 60000, "nearly full")
	ctx.NonTrivialIf(repeats > 0 && len(m.what) >= 3)
	return m.all(r, name)
}

// check compares what is under an id.
func (m *regModel) check(r registry, id uint32, name string) error {
	want, known := m.what[id]
	got, ok := r.get(id)
	if ok != known || !equalInts(got, want) && known {
		return pbt.Errf("%s: id %#x is %s (%v), want %s (%v)", name, id, short(got), ok, short(want), known)
	}
	if !known && len(got) != 0 {
		return pbt.Errf("%s: unknown id %#x is %s", name, id, short(got))
	}
	return nil
}

// all compares the whole registry.
func (m *regModel) all(r registry, name string) error {
	step := 1
	if len(m.what) > 3000 {
		step = 257
	}
	ids := pbt.SortedKeys(m.what)
	for i := 0; i < len(ids); i += step {
		id := ids[i]
		if err := m.check(r, id, name); err != nil {
			return err
		}
		if got, ok := r.find(m.what[id]); !ok || got != id {
			return pbt.Errf("%s: %s is found as %#x (%v), want %#x", name, short(m.what[id]), got, ok, id)
		}
	}
	for n := range m.next {
		for _, id := range []uint32{m.h.upper(n) | uint32(m.next[n]), m.h.upper(n) | 0xffff, m.h.upper(n+1) | 0, m.h.upper(n+2) | 5} {
			if err := m.check(r, id, name); err != nil {
				return err
			}
		}
	}
	for _, id := range []uint32{0, 1, 0xffff, 0x10000, 0x10001, 0x1ffff, 0xffff0000, 0xffffffff} {
		if err := m.check(r, id, name); err != nil {
			return err
		}
	}
	if got, ok := r.known(); ok {
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		if len(got) != len(ids) {
			return pbt.Errf("%s: %d ids are listed, %d are in use", name, len(got), len(ids))
		}
		for i := range ids {
			if got[i] != ids[i] {
				return pbt.Errf("%s: listed id %#x, want %#x", name, got[i], ids[i])
			}
		}
	}
	if n, ok := r.size(); ok && n != len(ids) {
		return pbt.Errf("%s: size is %d, %d are stored", name, n, len(ids))
	}
	return nil
}

func genRegistry(t *rapid.T, prefill []int) regHistory {
	h := regHistory{Kind: rapid.IntRange(0, 3).Draw(t, "kind"), Len: rapid.IntRange(1, 5).Draw(t, "len")}
	if prefill != nil {
		h.Prefill = rapid.SampledFrom(prefill).Draw(t, "prefill")
		h.Len = 3
	}
	n := rapid.IntRange(1, 8).Draw(t, "contents")
	wide := rapid.IntRange(0, 14).Draw(t, "wide") == 0
	for i := 0; i < n; i++ {
		var c content
		kind := rapid.IntRange(0, 9).Draw(t, "content kind")
		switch {
		case kind == 0 && len(h.Contents) > 0: // differs from an earlier one in one member
			base := h.Contents[rapid.IntRange(0, len(h.Contents)-1).Draw(t, "base")]
			c = content{V: append([]int(nil), base.V...), N: base.N, Fill: base.Fill}
			if len(c.V) > 0 {
				c.V[rapid.IntRange(0, len(c.V)-1).Draw(t, "at")] = rapid.IntRange(0, 9).Draw(t, "member")
			}
		case kind == 1:
			c.V = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 127, 128, 254, 255, 256, 257, 65535, 65536, 65537, 0x10000 + 255, 1<<31 - 1, 1 << 31, 1<<32 - 1}), 0, 5).Draw(t, "members")
		case kind == 2 && wide:
			c.V = rapid.SliceOfN(rapid.IntRange(0, 255), 0, 3).Draw(t, "members")
			c.N = rapid.SampledFrom([]int{254, 255, 256, 257, 300, 1000}).Draw(t, "length")
			c.Fill = rapid.IntRange(0, 3).Draw(t, "fill")
		default:
			c.V = rapid.SliceOfN(rapid.IntRange(0, 4), 0, 4).Draw(t, "members")
		}
		if prefill != nil && c.N == 0 && (h.Kind == kSets || h.Kind == kSetTable || h.Kind == kColls) {
			for len(c.V) < 3 {
				c.V = append(c.V, 200+i)
			}
			c.V = c.V[:3]
			if rapid.Bool().Draw(t, "high") {
				c.V[2] = 255 // not among those there before
			}
		}
		h.Contents = append(h.Contents, c)
	}
	if (h.Kind == kSets || h.Kind == kSetTable) && h.Len == 0 {
		h.Len = 1
	}
	ops := rapid.IntRange(1, 25).Draw(t, "ops")
	if prefill == nil && rapid.IntRange(0, 2).Draw(t, "alike") == 0 { // two a hash does not tell apart
		c := content{Hash: rapid.IntRange(1, collide.Kinds).Draw(t, "hash"), Seed: 2 * rapid.Uint32Range(0, 199).Draw(t, "seed")}
		a, b := len(h.Contents), len(h.Contents)+1
		if rapid.Bool().Draw(t, "second") {
			a, b = b, a
		}
		if n := len(c.members()); rapid.Bool().Draw(t, "as long") {
			h.Len = n
		}
		h.Contents = append(h.Contents, c)
		c.Seed++
		h.Contents = append(h.Contents, c)
		for _, o := range []regOp{{K: "i", C: a}, {K: "f", C: b}, {K: "i", C: b, P: 1}, {K: "i", C: a, P: 2}, {K: "f", C: b}} {
			h.Ops = append(h.Ops, o)
		}
	}
	for i := 0; i < ops; i++ {
		o := regOp{K: rapid.SampledFrom([]string{"i", "i", "i", "f", "g"}).Draw(t, "op"), C: rapid.IntRange(0, 40).Draw(t, "content"), P: rapid.IntRange(0, 6).Draw(t, "order")}
		if o.K == "g" {
			o.ID = uint32(rapid.IntRange(0, 6).Draw(t, "upper"))<<16 | uint32(rapid.IntRange(0, 8).Draw(t, "lower"))
			if rapid.IntRange(0, 5).Draw(t, "odd id") == 0 {
				o.ID = rapid.SampledFrom([]uint32{0xffff, 0x1ffff, 0x10000, 0xffff0000, 0xffffffff, 0x80000000, 0x2fffe}).Draw(t, "id")
			}
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

// longest registers contents around the greatest length an id can express.
func longestCases(_ string, yield func(regHistory) bool) {
	for kind, lens := range map[int][]int{kSets: {65535, 65536, 65537}, kColls: {65534, 65535, 65536}} {
		for _, n := range lens {
			h := regHistory{Kind: kind, Contents: []content{{V: []int{3, 1, 2}}, {V: []int{1}, N: n, Fill: 1}, {V: []int{5}, N: n, Fill: 1}, {V: []int{1, 2, 3}}}}
			for i, o := range []string{"i", "f", "i", "f", "i", "i", "f", "i", "f"} {
				h.Ops = append(h.Ops, regOp{K: o, C: []int{0, 1, 1, 1, 2, 1, 2, 3, 0}[i], P: i % 2})
			}
			if !yield(h) {
				return
			}
		}
	}
}

func i07() pbt.Property {
	return pbt.Property{
		ID:   "I07",
		Rule: "at least 3 contents are stored and one is registered again",
		Assumptions: []string{
			"the caller does not alter a set or collection after registering it; searches are for contents in ascending order, collections have distinct members",
			"empty tag sets are not registered (the registry has no id for them)",
		},
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.Rapid("history", 24000, 600000, func(t *rapid.T) regHistory { return genRegistry(t, nil) }, runRegistry),
			pbt.Rapid("filled", 1200, 30000, func(t *rapid.T) regHistory {
				return genRegistry(t, []int{254, 255, 256, 257, 1000})
			}, runRegistry),
			pbt.Rapid("full", 240, 3600, func(t *rapid.T) regHistory {
				return genRegistry(t, []int{65533, 65534, 65535, 65536})
			}, runRegistry),
			pbt.Enum("longest", longestCases, runRegistry),
		},
	}
}
