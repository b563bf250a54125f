package main

import (
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/amarin/gomorphy/verif/pbt"
)

// file is a compiled index as the layout has it, independent of the code under test.
type file struct {
	Tags  [][2]string // parent, name: 4 bytes each
	Sets  [][][]byte  // groups of sets of tag numbers; group i holds sets of i+1 tags
	Colls [][][]uint32
	Nodes []fileNode // node 0 is unused
}

type fileNode struct {
	Parent, ID uint32
	Letter     int32
	Coll       uint32
}

func (f *file) sections() [4][]byte {
	var td, ti, cd, id []byte
	td = append([]byte("TD\x00"), byte(len(f.Tags)))
	for _, t := range f.Tags {
		td = append(td, t[0]...)
		td = append(td, t[1]...)
	}
	ti = binary.BigEndian.AppendUint32([]byte("TI\x00"), uint32(len(f.Sets)))
	for _, group := range f.Sets {
		ti = binary.BigEndian.AppendUint16(ti, uint16(len(group)))
		for _, set := range group {
			ti = append(ti, byte(len(set)))
			ti = append(ti, set...)
		}
	}
	cd = append([]byte("CD\x00"), byte(len(f.Colls)))
	for _, group := range f.Colls {
		cd = binary.BigEndian.AppendUint32(cd, uint32(len(group)))
		for _, coll := range group {
			cd = append(cd, byte(len(coll)))
			for _, s := range coll {
				cd = binary.BigEndian.AppendUint32(cd, s)
			}
		}
	}
	id = binary.BigEndian.AppendUint32([]byte("ID\x00"), uint32(len(f.Nodes)))
	for _, n := range f.Nodes {
		id = binary.BigEndian.AppendUint32(id, n.Parent)
		id = binary.BigEndian.AppendUint32(id, n.ID)
		id = binary.BigEndian.AppendUint32(id, uint32(n.Letter))
		id = binary.BigEndian.AppendUint32(id, n.Coll)
	}
	return [4][]byte{td, ti, cd, id}
}

func (f *file) bytes() []byte {
	var res []byte
	for _, s := range f.sections() {
		res = append(res, s...)
	}
	return res
}

// parser takes bytes apart; a shortage is an error.
type parser struct {
	data []byte
	at   int
	err  error
}

func (p *parser) take(n int) []byte {
	if p.err != nil {
		return make([]byte, n)
	}
	if p.at+n > len(p.data) {
		p.err = fmt.Errorf("%d bytes wanted at %d of %d", n, p.at, len(p.data))
		return make([]byte, n)
	}
	p.at += n
	return p.data[p.at-n : p.at]
}

func (p *parser) u8() int     { return int(p.take(1)[0]) }
func (p *parser) u16() int    { return int(binary.BigEndian.Uint16(p.take(2))) }
func (p *parser) u32() uint32 { return binary.BigEndian.Uint32(p.take(4)) }
func (p *parser) section(name string) {
	if got := string(p.take(len(name) + 1)); p.err == nil && got != name+"\x00" {
		p.err = fmt.Errorf("section %q expected, got %q", name, got)
	}
}

// parse takes a compiled index apart strictly: exact layout, sizes in agreement with the groups, no
// reference to what is not there, nothing left over.
func parse(data []byte) (*file, error) {
	f, n, err := parsePrefix(data)
	if err != nil {
		return nil, err
	}
	if n != len(data) {
		return nil, fmt.Errorf("%d bytes left over", len(data)-n)
	}
	return f, nil
}

func parsePrefix(data []byte) (*file, int, error) {
	p := &parser{data: data}
	f := &file{}
	p.section("TD")
	for n := p.u8(); n > 0 && p.err == nil; n-- {
		f.Tags = append(f.Tags, [2]string{string(p.take(4)), string(p.take(4))})
	}
	p.section("TI")
	for n := p.u32(); n > 0 && p.err == nil; n-- {
		var group [][]byte
		for k := p.u16(); k > 0 && p.err == nil; k-- {
			size := p.u8()
			set := append([]byte(nil), p.take(size)...)
			if size != len(f.Sets)+1 {
				return nil, 0, fmt.Errorf("set %v in group %d", set, len(f.Sets))
			}
			if !sort.SliceIsSorted(set, func(i, j int) bool { return set[i] < set[j] }) {
				return nil, 0, fmt.Errorf("set %v is not in order", set)
			}
			for _, t := range set {
				if int(t) >= len(f.Tags) && p.err == nil {
					return nil, 0, fmt.Errorf("set %v names tag %d of %d", set, t, len(f.Tags))
				}
			}
			group = append(group, set)
		}
		f.Sets = append(f.Sets, group)
	}
	p.section("CD")
	for n := p.u8(); n > 0 && p.err == nil; n-- {
		var group [][]uint32
		for k := p.u32(); k > 0 && p.err == nil; k-- {
			size := p.u8()
			var coll []uint32
			for i := 0; i < size && p.err == nil; i++ {
				coll = append(coll, p.u32())
			}
			if size != len(f.Colls)+1 && p.err == nil {
				return nil, 0, fmt.Errorf("collection %v in group %d", coll, len(f.Colls))
			}
			for i, s := range coll {
				if g, j := int(s>>16), int(s&0xffff); p.err == nil && (g >= len(f.Sets) || j >= len(f.Sets[g])) {
					return nil, 0, fmt.Errorf("collection %v names tag set %#x, which is not there", coll, s)
				}
				if i > 0 && coll[i-1] >= s {
					return nil, 0, fmt.Errorf("collection %v is not in order", coll)
				}
			}
			group = append(group, coll)
		}
		f.Colls = append(f.Colls, group)
	}
	p.section("ID")
	n := p.u32()
	if n == 0 && p.err == nil {
		return nil, 0, fmt.Errorf("no nodes, not even node 0")
	}
	for i := uint32(0); i < n && p.err == nil; i++ {
		node := fileNode{p.u32(), p.u32(), int32(p.u32()), p.u32()}
		if p.err != nil {
			break
		}
		switch {
		case i == 0 && node != fileNode{}:
			return nil, 0, fmt.Errorf("node 0 is %v", node)
		case i > 0 && (node.ID != i || node.Parent >= i):
			return nil, 0, fmt.Errorf("node %d is %v", i, node)
		}
		if c := node.Coll; c != 0 && (int(c>>16) > len(f.Colls) || c>>16 == 0 || int(c&0xffff) >= len(f.Colls[c>>16-1])) {
			return nil, 0, fmt.Errorf("node %d names collection %#x, which is not there", i, c)
		}
		f.Nodes = append(f.Nodes, node)
	}
	return f, p.at, p.err
}

// unusedCollections counts collections no node names.
func (f *file) unusedCollections() (n int) {
	used := map[uint32]bool{}
	for _, node := range f.Nodes {
		used[node.Coll] = true
	}
	for g, group := range f.Colls {
		for i := range group {
			if !used[uint32(g+1)<<16|uint32(i)] {
				n++
			}
		}
	}
	return n
}

// model is what the file says.
func (f *file) model() *model {
	m := newModel()
	blank := func(s string) string {
		if s == "    " {
			return marker
		}
		return s
	}
	for _, t := range f.Tags {
		m.tag(blank(t[1]), blank(t[0]))
	}
	for i := 1; i < len(f.Nodes); i++ {
		n := f.Nodes[i]
		id := m.addTo(int(n.Parent), []rune{n.Letter})
		if id != i {
			pbt.Works("reading a file", fmt.Errorf("two nodes for one word"))
		}
		if n.Coll == 0 {
			continue
		}
		for _, s := range f.Colls[n.Coll>>16-1][n.Coll&0xffff] {
			var ids []int
			for _, t := range f.Sets[s>>16][s&0xffff] {
				ids = append(ids, int(t))
			}
			m.nodes[id].sets[setKey(ids)] = true
		}
	}
	return m
}

// same tells whether the file says what the model holds.
func (m *model) same(f *file) error {
	if len(f.Tags) != len(m.tags) {
		return pbt.Errf("%d tags written, there are %d", len(f.Tags), len(m.tags))
	}
	field := func(s string) string {
		if s == "" || s == marker {
			return "    "
		}
		return s
	}
	for i, t := range m.tags {
		if f.Tags[i] != [2]string{field(string(t.Parent)), field(string(t.Name))} {
			return pbt.Errf("tag %d written as %q, it is %v", i, f.Tags[i], t)
		}
	}
	for g, group := range f.Sets {
		seen := map[string]bool{}
		for _, set := range group {
			if seen[string(set)] {
				return pbt.Errf("tag set %v written twice in group %d", set, g)
			}
			seen[string(set)] = true
		}
	}
	for g, group := range f.Colls {
		seen := map[string]bool{}
		for _, coll := range group {
			if seen[fmt.Sprint(coll)] {
				return pbt.Errf("collection %v written twice in group %d", coll, g)
			}
			seen[fmt.Sprint(coll)] = true
		}
	}
	if len(f.Nodes) != len(m.nodes) {
		return pbt.Errf("%d nodes written, there are %d (node 0 included)", len(f.Nodes), len(m.nodes))
	}
	got := f.model()
	for i := 1; i < len(m.nodes); i++ {
		want := m.nodes[i]
		n := f.Nodes[i]
		if int(n.Parent) != want.parent || n.Letter != want.letter {
			return pbt.Errf("node %d written as %+v, want parent %d, letter %q", i, n, want.parent, want.letter)
		}
		if len(got.nodes[i].sets) != len(want.sets) {
			return pbt.Errf("%q written with %d tag sets, it has %d", m.word(i), len(got.nodes[i].sets), len(want.sets))
		}
		for k := range want.sets {
			if !got.nodes[i].sets[k] {
				return pbt.Errf("%q written without its tag set {%s}", m.word(i), m.names(k))
			}
		}
	}
	return nil
}
