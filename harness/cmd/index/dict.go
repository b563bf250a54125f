package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/verif/pbt"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- dictionaries

// dictSpec is what a dictionary says. Tags of lemmas and forms are numbers in Tags, modulo its length.
type dictSpec struct {
	Tags   []tagDef
	Lemmas []lemmaSpec
}

type lemmaSpec struct {
	L string // index in no way: the base form is only text
	// No says how the lemma is numbered: 0 by its place, otherwise as in lemmaNumbers.
	No int
	G  []int
	F  []formSpec
}

type formSpec struct {
	W string
	G []int
}

// lemmaNumbers are numbers and revisions lemmas may have in spite of their place.
var lemmaNumbers = [][2]string{{"1", "1"}, {"1", "2"}, {"0", "0"}, {"0", "7"}, {"7", "0"}, {"007", "0001"}, {"2147483648", "1"}, {"5", "4294967296"}, {"9223372036854775807", "9223372036854775807"}}

func (l *lemmaSpec) attrs(place int) [][2]string {
	id, rev := strconv.Itoa(place+1), strconv.Itoa(1000-place)
	if l.No > 0 {
		n := lemmaNumbers[(l.No-1)%len(lemmaNumbers)]
		id, rev = n[0], n[1]
	}
	return [][2]string{{"id", id}, {"rev", rev}}
}

func (d *dictSpec) tag(i int) (tagDef, bool) {
	if len(d.Tags) == 0 {
		return tagDef{}, false
	}
	if i < 0 {
		i = -i
	}
	return d.Tags[i%len(d.Tags)], true
}

// model is what the compiled index has to hold.
func (d *dictSpec) model() *model {
	m := newModel()
	for _, t := range d.Tags {
		m.tag(t.Name, t.Parent)
	}
	for _, l := range d.Lemmas {
		for _, f := range l.F {
			id := m.addTo(0, []rune(f.W))
			var ids []int
			for _, g := range append(append([]int(nil), l.G...), f.G...) {
				if t, ok := d.tag(g); ok {
					ids = append(ids, m.tag(t.Name, t.Parent))
				}
			}
			if len(ids) > 0 {
				m.nodes[id].sets[setKey(ids)] = true
			}
		}
	}
	return m
}

// sameContent compares an index with the model, without regard to how things are numbered in it.
func (m *model) sameContent(idx *index.Index, max int) error {
	if err := m.tagList(idx); err != nil {
		return err
	}
	if err := m.lookups(idx, max); err != nil {
		return err
	}
	if got := idx.NodesCount(); got != len(m.nodes)-1 {
		return pbt.Errf("%d nodes, there are %d distinct beginnings of words", got, len(m.nodes)-1)
	}
	if got := idx.WordsCount(); got != m.words() {
		return pbt.Errf("%d words, there are %d with tags", got, m.words())
	}
	return nil
}

// differs tells two dictionaries apart by what they mean.
func (m *model) differs(o *model) bool {
	describe := func(m *model) string {
		var b strings.Builder
		fmt.Fprint(&b, m.tags)
		words := map[string]string{}
		for i := 1; i < len(m.nodes); i++ {
			words[m.word(i)] = fmt.Sprint(pbt.SortedKeys(boolInts(m.nodes[i].sets)))
		}
		for _, w := range pbt.SortedKeys(words) {
			fmt.Fprint(&b, w, words[w], ";")
		}
		return b.String()
	}
	return describe(m) != describe(o)
}

func boolInts(m map[string]bool) map[string]int {
	res := map[string]int{}
	for k := range m {
		res[k] = 1
	}
	return res
}

var dictTagNames = []string{"POST", "NOUN", "VERB", "ANim", "anim", "Ms-f", "ms-f", "1per", "A&B<", "q\"'>", "ПО", "sing", "plur", "nomn", "gent", "a  b", "]]>x"}

func genDictTags(t *rapid.T, max int) []tagDef {
	n := rapid.IntRange(0, max).Draw(t, "tags")
	var res []tagDef
	for i := 0; i < n; i++ {
		name := rapid.SampledFrom(dictTagNames).Draw(t, "tag")
		if rapid.IntRange(0, 3).Draw(t, "own name") == 0 {
			name = fmt.Sprintf("t%03d", i)
		}
		parent := rapid.SampledFrom([]string{"", "", "POST", "NOUN", "none", "ANim", "<&\"'"}).Draw(t, "parent")
		res = append(res, tagDef{name, parent})
	}
	return res
}

func genDictWord(t *rapid.T) string {
	switch rapid.IntRange(0, 7).Draw(t, "word kind") {
	case 7: // alike, but not the same
		return rapid.StringOfN(rapid.SampledFrom(alike), 1, 4, -1).Draw(t, "word")
	case 0:
		return rapid.StringOfN(rapid.SampledFrom([]rune("абвгёжя")), 1, 8, -1).Draw(t, "word")
	case 1:
		return rapid.StringOfN(rapid.SampledFrom([]rune("a&<>\"'-’ ;#x丽𝛑")), 1, 6, -1).Draw(t, "word")
	default:
		return rapid.StringOfN(rapid.SampledFrom([]rune("абa")), 1, 4, -1).Draw(t, "word")
	}
}

// genDict makes a valid dictionary.
func genDict(t *rapid.T, lemmas int) dictSpec {
	d := dictSpec{Tags: genDictTags(t, 8)}
	g := rapid.Custom(func(t *rapid.T) []int {
		n := 3
		if rapid.IntRange(0, 29).Draw(t, "wide") == 0 {
			n = rapid.SampledFrom([]int{7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100}).Draw(t, "at most")
			return rapid.SliceOfN(rapid.IntRange(0, 9), n, n).Draw(t, "tags")
		}
		return rapid.SliceOfN(rapid.IntRange(0, 9), 0, n).Draw(t, "tags")
	})
	d.Lemmas = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) lemmaSpec {
		return lemmaSpec{
			L:  genDictWord(t),
			No: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}).Draw(t, "number"),
			G:  g.Draw(t, "lemma tags"),
			F: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) formSpec {
				return formSpec{genDictWord(t), g.Draw(t, "form tags")}
			}), 0, 4).Draw(t, "forms"),
		}
	}), 0, lemmas).Draw(t, "lemmas")
	return d
}

// bulkDict makes a large dictionary from a few numbers.
func bulkDict(lemmas, tags, seed int) dictSpec {
	r := rand.New(rand.NewSource(int64(seed)))
	var d dictSpec
	for i := 0; i < tags; i++ {
		p := ""
		if i > 2 {
			p = fmt.Sprintf("t%03d", i/3)
		}
		d.Tags = append(d.Tags, tagDef{fmt.Sprintf("t%03d", i), p})
	}
	for i := 0; i < lemmas; i++ {
		base := bulkWord(r.Intn(lemmas), seed)
		l := lemmaSpec{L: string(base), G: []int{r.Intn(10), 10 + r.Intn(20)}}
		for f := r.Intn(9); f >= 0; f-- {
			cut := r.Intn(3)
			if cut >= len(base) {
				cut = 0
			}
			w := string(base[:len(base)-cut]) + string([]rune("аеиоуы")[f%6])
			l.F = append(l.F, formSpec{w, []int{30 + r.Intn(tags), r.Intn(tags)}[:r.Intn(3)]})
		}
		d.Lemmas = append(d.Lemmas, l)
	}
	return d
}

// extremeDict has much of one thing.
type extreme struct {
	What int
	N    int
}

var extremeNames = []string{"forms in a lemma", "tags on a form", "tags on a lemma", "tag sets of a word", "letters in a word", "lemmas of one form each", "equal lemmas"}

func (x extreme) dict() dictSpec {
	d := bulkDict(20, 60, 3)
	r := rand.New(rand.NewSource(int64(x.N)))
	switch x.What {
	case 0: // forms of different words, at the end those of the first with other tags
		l := lemmaSpec{L: "л", G: []int{1}}
		for i := 0; i < x.N; i++ {
			l.F = append(l.F, formSpec{string(bulkWord(i%(x.N-2), 5)), []int{i % 60, 7}})
		}
		d.Lemmas = append(d.Lemmas, l)
	case 1, 2:
		var tags []int
		for i := 0; i < x.N; i++ {
			tags = append(tags, i%60)
		}
		l := lemmaSpec{L: "л", G: []int{1}, F: []formSpec{{"форма", tags}, {"другая", []int{3}}}}
		if x.What == 2 {
			l.G, l.F[0].G = tags, []int{1}
		}
		d.Lemmas = append(d.Lemmas, l, lemmaSpec{L: "л", G: []int{2}, F: []formSpec{{"форма", nil}}})
	case 3:
		for i := 0; i < x.N; i++ {
			d.Lemmas = append(d.Lemmas, lemmaSpec{L: "л", G: []int{i % 60}, F: []formSpec{{"омоним", []int{i / 60}}, {"форма", []int{1}}}})
		}
	case 4:
		w := make([]rune, x.N)
		for i := range w {
			w[i] = 'а' + rune(r.Intn(32))
		}
		d.Lemmas = append(d.Lemmas, lemmaSpec{L: string(w), G: []int{1}, F: []formSpec{{string(w), []int{2}}, {string(w[:x.N-1]) + "z", []int{3}}, {string(w[1:]), []int{4}}}})
	case 5:
		for i := 0; i < x.N; i++ {
			d.Lemmas = append(d.Lemmas, lemmaSpec{L: "л", G: []int{i % 7}, F: []formSpec{{string(bulkWord(i, 6)), []int{20 + i%11}}}})
		}
	case 6: // the same lemma again and again, between them another
		for i := 0; i < x.N; i++ {
			d.Lemmas = append(d.Lemmas, lemmaSpec{L: "л", No: 1 + i%2, G: []int{1}, F: []formSpec{{"форма", []int{2 + i%50}}}})
		}
	}
	return d
}

// ---------------------------------------------------------------- rendering

// token is a piece of the text of a dictionary.
type token struct {
	Kind  byte // 's' start, 'e' end, 't' text, 'o' other
	Name  string
	Attrs [][2]string // name, value (not escaped)
	Text  string
	Path  string // of the element it starts, ends or is in
}

// style decides how a dictionary is written down; once its bytes are used up everything is plain.
type style struct {
	data []byte
	at   int
}

func (s *style) next(n int) int {
	if s.at >= 6*len(s.data) { // the bytes are used several times over
		return 0
	}
	s.at++
	return int(s.data[(s.at-1)%len(s.data)]) % n
}

type renderer struct {
	style
	tokens []token
	path   []string
}

func (r *renderer) where() string { return strings.Join(r.path, ".") }

// space puts something that means nothing between elements.
func (r *renderer) space() {
	for n := r.next(3); n >= 0; n-- {
		text := ""
		kind := r.next(8)
		if len(r.path) == 0 && kind >= 5 {
			kind = 0
		}
		switch kind {
		case 1:
			text = "\n"
		case 2:
			text = " \t\r\n  "
		case 3:
			text = "<!-- <g v=\"NONE\"> & a comment -->"
		case 4:
			text = "<?note some <instruction> ?>"
		case 5:
			text = "&#32;"
		case 6:
			text = "<![CDATA[ ]]>"
		}
		if text != "" {
			r.tokens = append(r.tokens, token{Kind: 'o', Text: text, Path: r.where()})
		}
	}
}

func (r *renderer) start(name string, attrs ...[2]string) {
	r.space()
	r.path = append(r.path, name)
	if len(attrs) > 1 { // another order
		for i := range attrs {
			j := i + r.next(len(attrs)-i)
			attrs[i], attrs[j] = attrs[j], attrs[i]
		}
	}
	r.tokens = append(r.tokens, token{Kind: 's', Name: name, Attrs: attrs, Path: r.where()})
}

func (r *renderer) end() {
	name := r.path[len(r.path)-1]
	r.tokens = append(r.tokens, token{Kind: 'e', Name: name, Path: r.where()})
	r.path = r.path[:len(r.path)-1]
}

func (r *renderer) text(s string) {
	r.tokens = append(r.tokens, token{Kind: 't', Text: s, Path: r.where()})
}

func (r *renderer) element(name, text string, attrs ...[2]string) {
	r.start(name, attrs...)
	if text != "" {
		r.text(text)
	}
	r.end()
}

// tokensOf writes a dictionary down as tokens.
func (d *dictSpec) tokensOf(data []byte) ([]token, *style) {
	r := &renderer{style: style{data: data}}
	other := func(s string) { r.tokens = append(r.tokens, token{Kind: 'o', Text: s}) }
	switch r.next(4) {
	case 0:
		other("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\n")
	case 1:
		other("<?xml version='1.0'?>")
	case 2:
		other("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE dictionary>\n<!-- before -->")
	}
	root := [][2]string{{"version", []string{"0.92", "1", "10.0"}[r.next(3)]}, {"revision", []string{"417127", "0", "4294967296", "99999999999"}[r.next(4)]}}
	r.start("dictionary", root[:2-r.next(3)]...)
	r.start("grammemes")
	for i, t := range d.Tags {
		r.start("grammeme", [2]string{"parent", t.Parent})
		parts := []func(){
			func() { r.element("name", t.Name) },
			func() { r.element("alias", fmt.Sprintf("псевдоним %d <&>", i)) },
			func() { r.element("description", "описание \"'") },
		}
		first := 0
		if k := r.next(7); k == 1 {
			first = 1
		} else if k == 2 {
			first = 2
		}
		for p := range parts {
			if p > 0 && r.next(6) == 5 && (first+p)%3 != 0 {
				continue // alias and description may be missing
			}
			parts[(first+p)%3]()
		}
		r.space()
		r.end()
	}
	r.space()
	r.end()
	restrictions := func() {
		r.start("restrictions")
		for n := r.next(3); n > 0; n-- {
			r.start("restr", [2]string{"type", "maybe"}, [2]string{"auto", strconv.Itoa(n % 2)})
			r.element("left", "NOUN", [2]string{"type", "lemma"})
			r.element("right", "none of these", [2]string{"type", "form"})
			r.end()
		}
		r.end()
	}
	links := func() {
		r.start("link_types")
		for n := r.next(3); n > 0; n-- {
			r.element("type", "ADJF-ADJS", [2]string{"id", strconv.Itoa(n)})
		}
		r.end()
		r.start("links")
		for n := r.next(4); n > 0; n-- {
			r.element("link", "", [2]string{"id", strconv.Itoa(n)}, [2]string{"from", "1"}, [2]string{"to", "2"}, [2]string{"type", "x"})
		}
		r.end()
	}
	extras := r.next(4) // 0: none
	if extras&1 != 0 {
		restrictions()
	}
	r.start("lemmata")
	g := func(tags []int) {
		for _, n := range tags {
			if t, ok := d.tag(n); ok {
				r.element("g", "", [2]string{"v", t.Name})
			}
		}
		r.space()
	}
	for i, l := range d.Lemmas {
		r.start("lemma", l.attrs(i)...)
		base := func() {
			r.start("l", [2]string{"t", l.L})
			g(l.G)
			r.end()
		}
		last := r.next(9) == 8 // the base form after the others
		if !last {
			base()
		}
		for _, f := range l.F {
			r.start("f", [2]string{"t", f.W})
			g(f.G)
			r.end()
		}
		if last {
			base()
		}
		r.space()
		r.end()
	}
	r.space()
	r.end()
	if extras&2 != 0 {
		links()
	}
	r.space()
	r.end()
	switch r.next(3) {
	case 1:
		other("\n")
	case 2:
		other("\n<!-- after -->\n")
	}
	return r.tokens, &r.style
}

// escape writes characters in one of the ways there are.
func (s *style) escape(text string, quote byte) string {
	var b strings.Builder
	for _, c := range text {
		how := s.next(6)
		named := map[rune]string{'&': "&amp;", '<': "&lt;", '>': "&gt;", '"': "&quot;", '\'': "&apos;"}[c]
		must := c == '&' || c == '<' || c == '>' || quote != 0 && c == rune(quote)
		switch {
		case how == 4:
			fmt.Fprintf(&b, "&#%d;", c)
		case how == 5:
			fmt.Fprintf(&b, "&#x%X;", c)
		case named != "" && (must || how == 3):
			b.WriteString(named)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (s *style) write(tokens []token) []byte {
	var b strings.Builder
	for i, t := range tokens {
		switch t.Kind {
		case 'o':
			b.WriteString(t.Text)
		case 't':
			if len(t.Text) == 0 {
				break
			}
			parts := []string{t.Text}
			if c := s.next(4); c > 0 { // split in two
				runes := []rune(t.Text)
				at := c % (len(runes) + 1)
				parts = []string{string(runes[:at]), string(runes[at:])}
			}
			for j, p := range parts {
				if j > 0 {
					b.WriteString([]string{"<!-- split -->", "<?split?>", "<![CDATA[]]>", ""}[s.next(4)])
				}
				if s.next(4) == 3 && p != "" && !strings.Contains(p, "]]>") {
					b.WriteString("<![CDATA[" + p + "]]>")
				} else {
					b.WriteString(s.escape(p, 0))
				}
			}
		case 's':
			b.WriteString("<" + t.Name)
			for _, a := range t.Attrs {
				quote := "\"'"[s.next(2)]
				b.WriteString([]string{" ", "\n  ", "\t"}[s.next(3)])
				b.WriteString(a[0] + []string{"=", " = "}[s.next(2)])
				b.WriteByte(quote)
				b.WriteString(s.escape(a[1], quote))
				b.WriteByte(quote)
			}
			b.WriteString([]string{"", " "}[s.next(2)])
			if i+1 < len(tokens) && tokens[i+1].Kind == 'e' && tokens[i+1].Name == t.Name && s.next(3) != 1 {
				b.WriteString("/>")
			} else {
				b.WriteString(">")
			}
		case 'e':
			if i > 0 && tokens[i-1].Kind == 's' && tokens[i-1].Name == t.Name && strings.HasSuffix(b.String(), "/>") {
				break
			}
			b.WriteString("</" + t.Name + []string{"", " "}[s.next(2)] + ">")
		}
	}
	return []byte(b.String())
}

// bytes writes a dictionary down.
func (d *dictSpec) bytes(data []byte) []byte {
	tokens, s := d.tokensOf(data)
	return s.write(tokens)
}

func genStyle(t *rapid.T) []byte {
	if rapid.IntRange(0, 3).Draw(t, "plain") == 0 {
		return nil
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 400).Draw(t, "style")
}
