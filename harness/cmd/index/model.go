package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/pbt"
)

const marker = "----"

// ---------------------------------------------------------------- reference model

// mNode is a node of the reference model: a distinct beginning of an added word.
type mNode struct {
	parent   int
	letter   rune
	children map[rune]int
	sets     map[string]bool // tag sets attached: sorted tag numbers
}

// model is what an index is supposed to hold.
type model struct {
	tags  []dag.Tag
	ids   map[dag.TagName]int
	nodes []mNode // nodes[0] is the root
}

func newModel() *model {
	return &model{ids: map[dag.TagName]int{}, nodes: []mNode{{children: map[rune]int{}}}}
}

func (m *model) tag(name, parent string) int {
	if id, ok := m.ids[dag.TagName(name)]; ok {
		return id
	}
	if parent == "" {
		parent = marker
	}
	id := len(m.tags)
	m.ids[dag.TagName(name)] = id
	m.tags = append(m.tags, dag.Tag{Parent: dag.TagName(parent), Name: dag.TagName(name)})
	return id
}

func (m *model) addTo(from int, word []rune) int {
	for _, r := range word {
		next, ok := m.nodes[from].children[r]
		if !ok {
			next = len(m.nodes)
			m.nodes = append(m.nodes, mNode{parent: from, letter: r, children: map[rune]int{}, sets: map[string]bool{}})
			m.nodes[from].children[r] = next
		}
		from = next
	}
	return from
}

func (m *model) find(word []rune) (int, bool) {
	if len(word) == 0 {
		return 0, false
	}
	at := 0
	for _, r := range word {
		next, ok := m.nodes[at].children[r]
		if !ok {
			return 0, false
		}
		at = next
	}
	return at, true
}

func (m *model) letters(node int) []rune {
	var res []rune
	for ; node != 0; node = m.nodes[node].parent {
		res = append(res, m.nodes[node].letter)
	}
	for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
		res[i], res[j] = res[j], res[i]
	}
	return res
}

// word is the letters joined the way text is made of letters: one after another.
func (m *model) word(node int) string {
	var b strings.Builder
	for _, r := range m.letters(node) {
		b.WriteString(string(r))
	}
	return b.String()
}

func (m *model) words() (n int) {
	for _, node := range m.nodes {
		if len(node.sets) > 0 {
			n++
		}
	}
	return n
}

// setKey names a tag set by its tags in ascending order of their numbers.
func setKey(ids []int) string {
	ids = append([]int(nil), ids...)
	sort.Ints(ids)
	parts := make([]string, len(ids))
	for i, id := range ids {
		parts[i] = strconv.Itoa(id)
	}
	return strings.Join(parts, ",")
}

// ---------------------------------------------------------------- histories

// tagDef is a tag of a history.
type tagDef struct{ Name, Parent string }

// op is one step of a history.
type op struct {
	K    string // tag, word, attach, fetch, root, bulk, optimise, reload
	W    int    `json:",omitempty"` // number of the word (or of the tag to register)
	Cut  int    `json:",omitempty"` // prefix taken of the word: Cut letters less; negative: letters more
	How  int    `json:",omitempty"` // which of the ways to do it
	T    []int  `json:",omitempty"` // tags to attach; a tag not registered yet is an unknown one
	N    int    `json:",omitempty"` // bulk: number of words
	Seed int    `json:",omitempty"`
}

// history is a whole generated run.
type history struct {
	Tags  []tagDef
	Words [][]rune
	Ops   []op
}

// opWord is the word an operation is about.
func (h *history) opWord(o op) []rune {
	if len(h.Words) == 0 {
		return nil
	}
	w := h.Words[o.W%len(h.Words)]
	switch {
	case o.Cut > 0:
		if o.Cut >= len(w) {
			return nil
		}
		return w[:len(w)-o.Cut]
	case o.Cut < 0:
		extra := h.Words[(o.W+1)%len(h.Words)]
		n := -o.Cut
		if n > len(extra) {
			n = len(extra)
		}
		return append(append([]rune(nil), w...), extra[:n]...)
	}
	return w
}

// handle is a node kept from an earlier step.
type handle struct {
	node dag.Node
	id   int
}

// engine runs a history on an index and on the model.
type engine struct {
	h       *history
	idx     *index.Index
	m       *model
	handles []handle
	ctx     *pbt.Ctx
	refused int
	reloads int
	optims  int
	bulk    bool
	saved   []snapshot
}

// snapshot is what an index was at some time.
type snapshot struct {
	data []byte
	m    *model
	ids  stored
}

func newEngine(ctx *pbt.Ctx, h *history) *engine {
	return &engine{h: h, idx: index.New(), m: newModel(), ctx: ctx}
}

// dump writes an index.
func dump(idx *index.Index) ([]byte, error) {
	var buf bytes.Buffer
	err := idx.BinaryWriteTo(binutils.NewBinaryWriter(&buf))
	return buf.Bytes(), err
}

// load reads an index that has to be loadable.
func load(into *index.Index, data []byte) error {
	return into.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(data)))
}

// dirty makes an index that holds something else.
func dirty(seed int) *index.Index {
	idx := index.New()
	idx.TagID("DIRT", "XXXX")
	idx.TagID("NOUN", "YYYY")
	for i := 0; i < 3+seed%5; i++ {
		n, err := idx.AddRunes([]rune{'a' + rune((seed+i)%4), 'b', 'а' + rune(i)})
		pbt.Works("adding a word", err)
		pbt.Works("attaching a tag set", n.AddTagSet("DIRT"))
		if i%2 == 0 {
			pbt.Works("attaching a tag set", n.AddTagSet("NOUN", "DIRT"))
		}
	}
	return idx
}

// relative is an index of the same words and tags, registered in another order and attached otherwise.
func relative(m *model) *index.Index {
	idx := index.New()
	var names []dag.TagName
	for i := len(m.tags) - 1; i >= 0; i-- {
		idx.TagID(m.tags[i].Name, m.tags[i].Parent)
		names = append(names, m.tags[i].Name)
	}
	nodes := m.sampleNodes(200)
	for i := len(nodes) - 1; i >= 0; i-- {
		n, err := idx.AddRunes([]rune(m.word(nodes[i])))
		pbt.Works("adding a word", err)
		if len(names) > 0 {
			pbt.Works("attaching a tag set", n.AddTagSet(names[i%len(names)]))
			pbt.Works("attaching a tag set", n.AddTagSet(names[i%len(names)], names[(i+1)%len(names)]))
		}
	}
	return idx
}

// loadDamaged loads data with something wrong in it; what is in the index afterwards is anybody's guess.
func loadDamaged(into *index.Index, data []byte, seed int) bool {
	f, err := parse(data)
	pbt.Works("parsing what was written", err)
	last := len(f.Nodes) - 1
	switch {
	case seed%4 == 1 && last > 1:
		f.Nodes[last].Parent, f.Nodes[last].Letter = f.Nodes[1].Parent, f.Nodes[1].Letter
		data = f.bytes()
	case seed%4 == 2 && last > 0:
		f.Nodes[last].Coll = 0xffffffff
		data = f.bytes()
	default:
		data = data[:len(data)*(3+seed%8)/11]
	}
	return load(into, data) != nil
}

func (e *engine) keep(n dag.Node, id int) {
	if len(e.handles) < 40 {
		e.handles = append(e.handles, handle{n, id})
	}
}

// add adds a word in one of the ways there are.
func (e *engine) add(w []rune, how int) (dag.Node, int, error) {
	var (
		n   dag.Node
		err error
	)
	switch how % 4 {
	case 0:
		w = []rune(string(w)) // what is left of letters that text cannot express
		n, err = e.idx.AddString(string(w))
	case 1:
		n, err = e.idx.AddRunes(append([]rune(nil), w...))
	case 2: // the rest of the word to the longest beginning there is
		from, at := 0, 0
		for at < len(w)-1 {
			next, ok := e.m.nodes[from].children[w[at]]
			if !ok {
				break
			}
			from, at = next, at+1
		}
		if len(w) == 0 {
			n, err = e.idx.AddToNode(0, nil)
			break
		}
		n, err = e.idx.AddToNode(dag.ID(from), append([]rune(nil), w[at:]...))
	case 3: // not valid UTF-8: every bad byte is the replacement letter
		s := string(w)
		if len(s) > 2 {
			s = s[:len(s)-1]
		} else {
			s += "\xff"
		}
		w = []rune(s)
		n, err = e.idx.AddString(s)
	}
	if len(w) == 0 {
		if err == nil {
			return nil, 0, pbt.Errf("adding an empty word (way %d) is no error", how%4)
		}
		return nil, 0, nil
	}
	if err != nil {
		return nil, 0, pbt.Errf("adding %q (way %d): %v", string(w), how%4, err)
	}
	return n, e.m.addTo(0, w), nil
}

// node gets hold of the node of a word in one of the ways there are.
func (e *engine) node(w []rune, id, how int) (dag.Node, error) {
	switch how % 6 {
	case 0:
		if string([]rune(string(w))) == string(w) && equalRunes([]rune(string(w)), w) {
			return e.idx.FetchString(string(w))
		}
		return e.idx.FetchRunes(w)
	case 1:
		return e.idx.FetchRunes(w)
	case 2:
		return e.idx.Get(dag.ID(id))
	case 3:
		return e.idx.GetItem(dag.ID(id)), nil
	case 4:
		n := e.idx.GetChildrenMap(dag.ID(e.m.nodes[id].parent))[e.m.nodes[id].letter]
		if n == nil {
			return nil, fmt.Errorf("no child %q of node %d", string(e.m.nodes[id].letter), e.m.nodes[id].parent)
		}
		return n, nil
	default:
		return e.idx.AddRunes(w)
	}
}

func equalRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// attach attaches a tag set to a node and checks what has to be refused.
func (e *engine) attach(n dag.Node, id int, tags []int) error {
	var (
		names   []dag.TagName
		ids     []int
		unknown bool
	)
	for _, t := range tags {
		name := dag.TagName("n/a" + strconv.Itoa(t))
		if t >= 0 && t < len(e.h.Tags) {
			name = dag.TagName(e.h.Tags[t].Name)
		}
		names = append(names, name)
		tagID, ok := e.m.ids[name]
		unknown = unknown || !ok
		ids = append(ids, tagID)
	}
	check := (unknown || len(tags) == 0) && !e.bulk
	var before []byte
	var berr error
	if check {
		before, berr = dump(e.idx)
	}
	err := n.AddTagSet(names...)
	switch {
	case unknown && err == nil:
		return pbt.Errf("attaching %q to %q: a tag is not registered, yet no error", names, e.m.word(id))
	case unknown:
		e.refused++
	case err != nil:
		return pbt.Errf("attaching %q to %q: %v", names, e.m.word(id), err)
	case len(ids) > 0:
		e.m.nodes[id].sets[setKey(ids)] = true
	}
	if check && berr == nil {
		after, err := dump(e.idx)
		if err != nil || !bytes.Equal(before, after) {
			return pbt.Errf("attaching %q to %q changed the index, although there is nothing to record", names, e.m.word(id))
		}
	}
	return nil
}

// step runs one operation.
func (e *engine) step(o op) error {
	switch o.K {
	case "tag":
		if len(e.h.Tags) == 0 {
			return nil
		}
		d := e.h.Tags[o.W%len(e.h.Tags)]
		parent := d.Parent
		if o.How%2 == 1 { // the first parent counts
			parent = "othr"
		}
		want := e.m.tag(d.Name, parent)
		if got := e.idx.TagID(dag.TagName(d.Name), dag.TagName(parent)); int(got) != want {
			return pbt.Errf("tag %q got id %d, want %d", d.Name, got, want)
		}
	case "word":
		n, id, err := e.add(e.h.opWord(o), o.How)
		if err != nil {
			return err
		}
		if n != nil {
			e.keep(n, id)
		}
	case "attach":
		if o.How%9 == 8 && len(e.handles) > 0 { // a node kept from an earlier step
			hd := e.handles[o.W%len(e.handles)]
			return e.attach(hd.node, hd.id, o.T)
		}
		w := e.h.opWord(o)
		id, ok := e.m.find(w)
		if !ok {
			if len(w) == 0 {
				return nil
			}
			n, nid, err := e.add(w, 1)
			if err != nil {
				return err
			}
			return e.attach(n, nid, o.T)
		}
		n, err := e.node(w, id, o.How)
		if err != nil {
			return pbt.Errf("no node for %q (way %d): %v", string(w), o.How%6, err)
		}
		return e.attach(n, id, o.T)
	case "fetch":
		w := e.h.opWord(o)
		_, ok := e.m.find(w)
		n, err := e.idx.FetchRunes(w)
		if ok != (err == nil) {
			return pbt.Errf("lookup of %q: error %v, added %v", string(w), err, ok)
		}
		if err == nil {
			_ = n.TagSets()
			_ = n.Word()
		}
		_, _ = e.idx.FetchString(string(w))
		_, _ = e.idx.FetchItemFromParent(dag.ID(o.How), w)
		e.idx.GetChildrenIDMap(dag.ID(o.How))
		e.idx.GetChildrenMap(dag.ID(o.How))
	case "root": // nothing can be attached to the root or to no node
		for _, id := range []dag.ID{0, dag.ID(len(e.m.nodes)), 1 << 31} {
			name := dag.TagName("none")
			if len(e.m.tags) > 0 {
				name = e.m.tags[0].Name
			}
			if err := e.idx.GetItem(id).AddTagSet(name); err == nil {
				return pbt.Errf("a tag set was attached to node %d, which is none", id)
			}
			if id != 0 {
				if _, err := e.idx.AddToNode(id, []rune{'z'}); err == nil {
					return pbt.Errf("a word was added to node %d, which is none", id)
				}
			}
		}
	case "bulk":
		return e.bulkAdd(o.N, o.Seed)
	case "many":
		return e.manySets(e.h.opWord(o), o.N, o.Seed)
	case "lengths":
		return e.lengths(e.h.opWord(o), o.N)
	case "long":
		return e.longWords(o.N, o.Seed)
	case "optimise":
		e.idx.Optimize()
		e.optims++
	case "reload":
		ids := numbers(e.idx, e.m.sampleNodes(50))
		data, err := dump(e.idx)
		if err != nil {
			return pbt.Errf("writing: %v", err)
		}
		target := e.idx
		switch o.How % 6 {
		case 0:
			target = index.New()
		case 1:
			target = dirty(o.Seed)
		case 3:
			target = relative(e.m)
		case 4:
			e.ctx.LabelIf(loadDamaged(target, data, o.Seed), "into an index a load into failed")
		case 5:
			target = index.New()
			e.ctx.LabelIf(loadDamaged(target, data, o.Seed), "into an index a load into failed")
		}
		if err = load(target, data); err != nil {
			return pbt.Errf("reading back: %v", err)
		}
		if err = ids.same(target); err != nil {
			return pbt.Errf("reloaded: %v", err)
		}
		e.idx = target
		e.handles = nil
		e.reloads++
	case "save":
		data, err := dump(e.idx)
		if err != nil {
			return pbt.Errf("writing: %v", err)
		}
		if len(e.saved) < 4 {
			e.saved = append(e.saved, snapshot{data, cloneModel(e.m), numbers(e.idx, e.m.sampleNodes(50))})
		}
	case "revert": // back to what was saved
		if len(e.saved) == 0 {
			return nil
		}
		s := e.saved[o.Seed%len(e.saved)]
		if err := load(e.idx, s.data); err != nil {
			return pbt.Errf("reading back what was saved earlier: %v", err)
		}
		if err := s.ids.same(e.idx); err != nil {
			return pbt.Errf("loaded again what was saved earlier: %v", err)
		}
		e.m, e.handles = cloneModel(s.m), nil
		e.reloads++
		e.ctx.Label("back to an earlier state")
	default:
		panic(pbt.HarnessError{Err: fmt.Errorf("op %q", o.K)})
	}
	return nil
}

// bulkTags is how many tags bulk words use.
const bulkTags = 30

// bulkWord is the i-th of the words added in bulk.
func bulkWord(i, seed int) []rune {
	base := 7 + seed%13
	var w []rune
	for n := i + base; n > 0; n /= base {
		w = append(w, 'а'+rune(n%base))
	}
	if seed%2 == 1 {
		for a, b := 0, len(w)-1; a < b; a, b = a+1, b-1 {
			w[a], w[b] = w[b], w[a]
		}
	}
	if i%16 == 15 { // late nodes have children too
		w = append(w, 'x', 'y')
	}
	return w
}

// bulkSets are the tag sets of the i-th word.
func bulkSets(i, seed int) [][]int {
	var res [][]int
	n := 1 + (i*7+seed)%3
	if i%101 == 100 {
		n = 30
	}
	if i%7 == 6 {
		n = 0
	}
	for k := 0; k < n; k++ {
		x := i*31 + k*17 + seed
		set := []int{x % bulkTags}
		for j := 0; j < (x/3)%4; j++ {
			set = append(set, (x/5+j*11)%bulkTags)
		}
		res = append(res, set)
	}
	return res
}

// bulkRegister registers the tags bulk words use.
func (e *engine) bulkRegister() (names []dag.TagName, ids []int, err error) {
	for t := 0; t < bulkTags; t++ {
		name := fmt.Sprintf("b%03d", t)
		want := e.m.tag(name, "blk ")
		if got := e.idx.TagID(dag.TagName(name), "blk "); int(got) != want {
			return nil, nil, pbt.Errf("tag %q got id %d, want %d", name, got, want)
		}
		names, ids = append(names, dag.TagName(name)), append(ids, want)
	}
	return names, ids, nil
}

// manySets attaches n different tag sets to one word.
func (e *engine) manySets(w []rune, n, seed int) error {
	if len(w) == 0 {
		return nil
	}
	names, ids, err := e.bulkRegister()
	if err != nil {
		return err
	}
	node, err := e.idx.AddRunes(w)
	if err != nil {
		return pbt.Errf("adding %q: %v", string(w), err)
	}
	id := e.m.addTo(0, w)
	for i := 0; i < n; i++ {
		x := (i + seed*37) % 4060 // triples, some of them pairs
		a, b, c := x%bulkTags, x/bulkTags%bulkTags, (x/bulkTags/bulkTags+x)%bulkTags
		set := []int{a, b}
		if c != a && c != b {
			set = append(set, c)
		}
		var setNames []dag.TagName
		var setIDs []int
		for _, t := range set {
			setNames, setIDs = append(setNames, names[t]), append(setIDs, ids[t])
		}
		if err = node.AddTagSet(setNames...); err != nil {
			return pbt.Errf("attaching %q to %q, which has %d: %v", setNames, string(w), i, err)
		}
		e.m.nodes[id].sets[setKey(setIDs)] = true
	}
	return nil
}

// lengths attaches tag sets of 1 to n tags to one word, the longest and the shortest alternating.
func (e *engine) lengths(w []rune, n int) error {
	if len(w) == 0 {
		return nil
	}
	for i := 0; len(e.m.tags) < n; i++ {
		name := fmt.Sprintf("l%03d", i)
		want := e.m.tag(name, "len ")
		if got := e.idx.TagID(dag.TagName(name), "len "); int(got) != want {
			return pbt.Errf("tag %q got id %d, want %d", name, got, want)
		}
	}
	node, err := e.idx.AddRunes(w)
	if err != nil {
		return pbt.Errf("adding %q: %v", string(w), err)
	}
	id := e.m.addTo(0, w)
	var names []dag.TagName
	var ids []int
	for i := 0; i < n; i++ {
		names, ids = append(names, e.m.tags[i].Name), append(ids, i)
	}
	for i := 0; i < n; i++ {
		k := i/2 + 1
		if i%2 == 1 {
			k = n - i/2
		}
		if err = node.AddTagSet(append([]dag.TagName(nil), names[:k]...)...); err != nil {
			return pbt.Errf("attaching %d tags to %q, which has %d tag sets: %v", k, string(w), i, err)
		}
		e.m.nodes[id].sets[setKey(append([]int(nil), ids[:k]...))] = true
	}
	return nil
}

// longWords adds a word of n letters and others leaving it on the way and near its end.
func (e *engine) longWords(n, seed int) error {
	names, ids, err := e.bulkRegister()
	if err != nil {
		return err
	}
	w := make([]rune, n)
	for i := range w {
		w[i] = 'а' + rune((i*i+seed)%32)
	}
	for i, word := range [][]rune{w, append(append([]rune(nil), w[:n-1]...), 'z'), append(append([]rune(nil), w[:n/2]...), 'z', 'z'), append(append([]rune(nil), w...), 'z')} {
		node, id, err := e.add(word, []int{1, 0, 2, 1}[(i+seed)%4])
		if err != nil {
			return err
		}
		t := (i + seed) % bulkTags
		if err = node.AddTagSet(names[t]); err != nil {
			return pbt.Errf("attaching a tag set to a word of %d letters: %v", len(word), err)
		}
		e.m.nodes[id].sets[setKey([]int{ids[t]})] = true
	}
	return nil
}

func (e *engine) bulkAdd(n, seed int) error {
	names, ids, err := e.bulkRegister()
	if err != nil {
		return err
	}
	for i := 0; i < n; i++ {
		w := bulkWord(i, seed)
		node, err := e.idx.AddRunes(w)
		if err != nil {
			return pbt.Errf("adding %q: %v", string(w), err)
		}
		id := e.m.addTo(0, w)
		for _, set := range bulkSets(i, seed) {
			var setNames []dag.TagName
			var setIDs []int
			for _, t := range set {
				setNames = append(setNames, names[t])
				setIDs = append(setIDs, ids[t])
			}
			if err = node.AddTagSet(setNames...); err != nil {
				return pbt.Errf("attaching %q to %q: %v", setNames, string(w), err)
			}
			e.m.nodes[id].sets[setKey(setIDs)] = true
		}
	}
	return nil
}

func (e *engine) run() error {
	for _, o := range e.h.Ops {
		e.bulk = e.bulk || o.K == "bulk" && o.N > 2000
	}
	for i, o := range e.h.Ops {
		e.ctx.Turn()
		if err := e.step(o); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, o.K, err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- answers

// sampleNodes are the nodes to look at: all of them, or evenly spread ones of many.
func (m *model) sampleNodes(max int) []int {
	var res []int
	step := 1
	if max > 0 && len(m.nodes) > max {
		step = len(m.nodes) / max
	}
	for i := 1; i < len(m.nodes); i += step {
		res = append(res, i)
	}
	if n := len(m.nodes) - 1; n > 0 && res[len(res)-1] != n {
		res = append(res, n)
	}
	return res
}

// tagSetsOf compares the tag sets a node reports with the model.
func (m *model) tagSetsOf(n dag.Node, id int) error {
	got := map[string]int{}
	for _, set := range n.TagSets() {
		var ids []int
		for _, tag := range set {
			tagID, ok := m.ids[tag.Name]
			if !ok {
				return pbt.Errf("%q has a tag set with tag %q, which is not registered", m.word(id), tag.Name)
			}
			if m.tags[tagID] != tag {
				return pbt.Errf("%q has a tag set with tag %q of parent %q, registered with parent %q", m.word(id), tag.Name, tag.Parent, m.tags[tagID].Parent)
			}
			ids = append(ids, tagID)
		}
		got[setKey(ids)]++
	}
	want := m.nodes[id].sets
	for k := range want {
		if got[k] != 1 {
			return pbt.Errf("%q reports its tag set {%s} %d times; it reports %d sets and has %d", m.word(id), m.names(k), got[k], len(got), len(want))
		}
	}
	for k := range got {
		if !want[k] {
			return pbt.Errf("%q reports tag set {%s}, which was never attached to it", m.word(id), m.names(k))
		}
	}
	return nil
}

func (m *model) names(key string) string {
	var res []string
	for _, p := range strings.Split(key, ",") {
		if i, err := strconv.Atoi(p); err == nil && i < len(m.tags) {
			res = append(res, string(m.tags[i].Name))
		} else {
			res = append(res, p)
		}
	}
	return strings.Join(res, ",")
}

// lookups checks every lookup answer: words, beginnings, and what is neither.
func (m *model) lookups(idx *index.Index, max int) error {
	probes := []rune{'а', 'b', 'z', 0, utf8.RuneError}
	for _, id := range m.sampleNodes(max) {
		w := m.letters(id)
		n, err := idx.FetchRunes(w)
		if err != nil {
			return pbt.Errf("lookup of letters %q (%v) failed: %v", string(w), w, err)
		}
		if err = m.tagSetsOf(n, id); err != nil {
			return err
		}
		if s := string(w); equalRunes([]rune(s), w) {
			if n, err = idx.FetchString(s); err != nil {
				return pbt.Errf("lookup of string %q failed: %v", s, err)
			}
			if err = m.tagSetsOf(n, id); err != nil {
				return pbt.Errf("by string: %v", err)
			}
		}
		if max == 0 || len(m.nodes) <= max { // words that are not there
			for _, r := range probes {
				if _, ok := m.nodes[id].children[r]; ok {
					continue
				}
				if _, err = idx.FetchRunes(append(append([]rune(nil), w...), r)); err == nil {
					return pbt.Errf("%q was found, only %q was added", string(w)+string(r), string(w))
				}
			}
			for _, other := range [][]rune{w[1:], append([]rune{w[len(w)-1]}, w...), append(append([]rune(nil), w...), w...)} {
				if err = m.agree(idx, other); err != nil {
					return err
				}
			}
		}
	}
	for _, r := range probes {
		if err := m.agree(idx, []rune{r}); err != nil {
			return err
		}
	}
	if _, err := idx.FetchString(""); err == nil {
		return pbt.Errf("looking up an empty word is no error")
	}
	if _, err := idx.FetchRunes(nil); err == nil {
		return pbt.Errf("looking up no letters is no error")
	}
	return nil
}

// agree compares the lookup of a word with the model, by letters and by string.
func (m *model) agree(idx *index.Index, w []rune) error {
	if len(w) == 0 {
		return nil
	}
	id, ok := m.find(w)
	n, err := idx.FetchRunes(w)
	if ok != (err == nil) {
		return pbt.Errf("lookup of letters %q (%v): error %v, added: %v", string(w), w, err, ok)
	}
	if ok {
		if err = m.tagSetsOf(n, id); err != nil {
			return err
		}
	}
	s := string(w)
	id, ok = m.find([]rune(s))
	n, err = idx.FetchString(s)
	if ok != (err == nil) {
		return pbt.Errf("lookup of string %q: error %v, added: %v", s, err, ok)
	}
	if ok {
		return m.tagSetsOf(n, id)
	}
	return nil
}

// tree checks nodes, ids, words, children and counts.
func (m *model) tree(idx *index.Index, max int) error {
	if got := idx.NodesCount(); got != len(m.nodes)-1 {
		return pbt.Errf("node count is %d, there are %d distinct beginnings", got, len(m.nodes)-1)
	}
	if got, want := idx.WordsCount(), m.words(); got != want {
		return pbt.Errf("word count is %d, %d words have tag sets", got, want)
	}
	for _, id := range append([]int{0}, m.sampleNodes(max)...) {
		if err := m.nodeAt(idx, id, max); err != nil {
			return err
		}
	}
	for _, id := range []uint32{uint32(len(m.nodes)), uint32(len(m.nodes)) + 1, uint32(len(m.nodes)) + 16, 1 << 16, 1<<16 + 1, 1 << 31, 1<<32 - 1} {
		if int(id) < len(m.nodes) {
			continue
		}
		if n, err := idx.Get(dag.ID(id)); err == nil {
			return pbt.Errf("node %d was found (%v), there are %d", id, n.Word(), len(m.nodes)-1)
		}
		if _, err := idx.FetchFromItem(dag.ID(id), []rune{'a'}); err == nil {
			return pbt.Errf("a word was found from node %d, there are %d", id, len(m.nodes)-1)
		}
		if _, err := idx.FetchItemFromParent(dag.ID(id), []rune{'a'}); err == nil {
			return pbt.Errf("a word was found from node %d, there are %d", id, len(m.nodes)-1)
		}
		if len(idx.GetChildrenMap(dag.ID(id))) != 0 || len(idx.GetChildrenIDMap(dag.ID(id))) != 0 {
			return pbt.Errf("node %d has children, there are %d nodes", id, len(m.nodes)-1)
		}
	}
	return m.childrenOf(idx, 0, idx.Children())
}

func (m *model) childrenOf(idx *index.Index, id int, got dag.NodeMap) error {
	want := m.nodes[id].children
	if len(got) != len(want) {
		return pbt.Errf("node %d (%q) has %d children, want %d", id, m.word(id), len(got), len(want))
	}
	for letter, childID := range want {
		child, ok := got[letter].(*index.Node)
		if !ok || int(child.Id()) != childID {
			return pbt.Errf("child %q of node %d (%q) is %v, want node %d", string(letter), id, m.word(id), got[letter], childID)
		}
	}
	return nil
}

func (m *model) nodeAt(idx *index.Index, id, max int) error {
	n, err := idx.Get(dag.ID(id))
	if err != nil {
		return pbt.Errf("node %d: %v", id, err)
	}
	if err = m.is(n, id); err != nil {
		return pbt.Errf("by id: %v", err)
	}
	item := idx.GetItem(dag.ID(id))
	if err = m.is(item, id); err != nil {
		return pbt.Errf("item by id: %v", err)
	}
	if err = m.childrenOf(idx, id, idx.GetChildrenMap(dag.ID(id))); err != nil {
		return err
	}
	byID := idx.GetChildrenIDMap(dag.ID(id))
	if len(byID) != len(m.nodes[id].children) {
		return pbt.Errf("node %d (%q) has %d child ids, want %d", id, m.word(id), len(byID), len(m.nodes[id].children))
	}
	for letter, childID := range m.nodes[id].children {
		if int(byID[letter]) != childID {
			return pbt.Errf("child id %q of node %d (%q) is %d, want %d", string(letter), id, m.word(id), byID[letter], childID)
		}
	}
	if id == 0 {
		if _, err = idx.FetchFromItem(0, nil); err == nil {
			return pbt.Errf("no letters lead from the root to a node")
		}
		return nil
	}
	raw := item.Item()
	if int(raw.ID) != id || int(raw.Parent) != m.nodes[id].parent || raw.Letter != m.nodes[id].letter {
		return pbt.Errf("node %d is recorded as id %d, parent %d, letter %q; want parent %d, letter %q", id, raw.ID, raw.Parent, raw.Letter, m.nodes[id].parent, m.nodes[id].letter)
	}
	if (raw.Variants != 0) != (len(m.nodes[id].sets) > 0) {
		return pbt.Errf("node %d (%q) has collection %d and %d tag sets", id, m.word(id), raw.Variants, len(m.nodes[id].sets))
	}
	// from every ancestor
	rest := []rune{}
	for at, steps := id, 0; at != 0 && steps < 12; steps++ {
		rest = append([]rune{m.nodes[at].letter}, rest...)
		at = m.nodes[at].parent
		n, err = idx.FetchFromItem(dag.ID(at), rest)
		if err != nil {
			return pbt.Errf("from node %d letters %q lead nowhere: %v", at, string(rest), err)
		}
		if err = m.is(n, id); err != nil {
			return pbt.Errf("from node %d by letters %q: %v", at, string(rest), err)
		}
		inode, err := idx.FetchItemFromParent(dag.ID(at), rest)
		if err != nil || inode == nil || int(inode.Id()) != id {
			return pbt.Errf("item from node %d by letters %q is %v (%v), want node %d", at, string(rest), inode, err, id)
		}
		if max > 0 && len(m.nodes) > max {
			break
		}
	}
	w := m.letters(id)
	if n, err = idx.FetchRunes(w); err != nil {
		return pbt.Errf("letters %q lead nowhere: %v", string(w), err)
	}
	if err = m.is(n, id); err != nil {
		return pbt.Errf("by letters: %v", err)
	}
	if s := string(w); equalRunes([]rune(s), w) {
		if n, err = idx.FetchString(s); err != nil {
			return pbt.Errf("string %q leads nowhere: %v", s, err)
		}
		if err = m.is(n, id); err != nil {
			return pbt.Errf("by string: %v", err)
		}
	}
	return nil
}

// is checks that a node is the one numbered id: its number, its word and its text.
func (m *model) is(n dag.Node, id int) error {
	in, ok := n.(*index.Node)
	if !ok || in == nil {
		return pbt.Errf("node %d is %v", id, n)
	}
	if int(in.Id()) != id {
		return pbt.Errf("got node %d, want %d", in.Id(), id)
	}
	if got, want := n.Word(), m.word(id); got != want {
		return pbt.Errf("word of node %d is %q, want %q", id, got, want)
	}
	text := n.String()
	if !utf8.ValidString(text) {
		return pbt.Errf("text of node %d is not valid: %q", id, text)
	}
	rest := []rune(text)
	for _, r := range []rune(m.word(id)) {
		at := -1
		for i, c := range rest {
			if c == r {
				at = i
				break
			}
		}
		if at < 0 {
			return pbt.Errf("text %q of node %d misses letters of its word %q", text, id, m.word(id))
		}
		rest = rest[at+1:]
	}
	if id == 0 && len(n.TagSets()) != 0 {
		return pbt.Errf("the root has tag sets")
	}
	return nil
}

// tagList checks the tag registry of an index.
func (m *model) tagList(idx *index.Index) error {
	tags := idx.Tags()
	if tags.Len() != len(m.tags) {
		return pbt.Errf("%d tags, want %d", tags.Len(), len(m.tags))
	}
	for i, want := range m.tags {
		got, ok := tags.Get(dag.TagID(i))
		if !ok || got != want {
			return pbt.Errf("tag %d is %v (%v), want %v", i, got, ok, want)
		}
		id, ok := tags.Find(want.Name)
		if !ok || int(id) != i {
			return pbt.Errf("tag %q is found as %d (%v), want %d", want.Name, id, ok, i)
		}
	}
	return nil
}

// ids collects what has to survive a reload to the number: collection of every node, and contents.
func (m *model) contents(idx *index.Index, max int) (map[int][]string, error) {
	res := map[int][]string{}
	sets := idx.TagSetIndex()
	for _, id := range m.sampleNodes(max) {
		item := idx.GetItem(dag.ID(id)).Item()
		coll, err := idx.Variants(item.Variants)
		if err != nil {
			return nil, pbt.Errf("collection %d of %q: %v", item.Variants, m.word(id), err)
		}
		var list []string
		for _, setID := range coll {
			set, ok := sets.Get(setID)
			if !ok {
				return nil, pbt.Errf("tag set %d of %q is not found", setID, m.word(id))
			}
			found, ok := sets.Find(set)
			if !ok || found != setID {
				return nil, pbt.Errf("tag set %d of %q is found as %d (%v)", setID, m.word(id), found, ok)
			}
			var ids []int
			for _, t := range set {
				ids = append(ids, int(t))
			}
			key := setKey(ids)
			if !m.nodes[id].sets[key] {
				return nil, pbt.Errf("collection %d of %q names tag set {%s}, which it has not", item.Variants, m.word(id), m.names(key))
			}
			tags, err := idx.TagSet(set)
			if err != nil || len(tags) != len(set) {
				return nil, pbt.Errf("tags of set %d: %v (%v)", setID, tags, err)
			}
			for i, t := range set {
				if tags[i] != m.tags[t] {
					return nil, pbt.Errf("tags of set %d: %v, want %v at %d", setID, tags, m.tags[t], i)
				}
			}
			list = append(list, fmt.Sprintf("%d:%s", setID, key))
		}
		if len(list) != len(m.nodes[id].sets) {
			return nil, pbt.Errf("collection %d of %q has %d sets, want %d", item.Variants, m.word(id), len(list), len(m.nodes[id].sets))
		}
		res[id] = list
	}
	return res, nil
}

// everything checks all answers.
func (m *model) everything(idx *index.Index, max int) error {
	if err := m.tagList(idx); err != nil {
		return err
	}
	if err := m.lookups(idx, max); err != nil {
		return err
	}
	if err := m.tree(idx, max); err != nil {
		return err
	}
	_, err := m.contents(idx, max)
	return err
}
