package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/tree"
	"github.com/amarin/gomorphy/verif/web"

	"pgregory.net/rapid"
)

// commandPath is a command built from the code under test.
func commandPath(name string) string {
	return filepath.Join(os.Getenv("VERIF_BUILD"), "bin", name)
}

const (
	endWord  = "ъъ" // a word every index of the console has, to tell answers apart
	endTag   = "ZMRK"
	patience = 100 * time.Second
)

// consoleDict is a dictionary whose tag names are found in any text: Q, a letter and two digits.
func consoleDict(t *rapid.T) dictSpec {
	var d dictSpec
	n := rapid.IntRange(1, 9).Draw(t, "tags")
	for i := 0; i < n; i++ {
		parent := rapid.SampledFrom([]string{"", "Pa01", "Pb77", "Qa00"}).Draw(t, "parent")
		name := fmt.Sprintf("Q%c%02d", "abcdAB"[rapid.IntRange(0, 5).Draw(t, "letter")], i)
		if i > 0 && rapid.IntRange(0, 4).Draw(t, "same letters") == 0 { // differs in case only
			last := d.Tags[i-1].Name
			if other := last[:1] + string(last[1]^0x20) + last[2:]; i < 2 || d.Tags[i-2].Name != other {
				name = other
			}
		}
		d.Tags = append(d.Tags, tagDef{name, parent})
	}
	word := func(t *rapid.T) string { return rapid.SampledFrom(consoleWords).Draw(t, "word") }
	g := rapid.SliceOfN(rapid.IntRange(0, 9), 0, 3)
	d.Lemmas = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) lemmaSpec {
		return lemmaSpec{L: "лемма", G: g.Draw(t, "lemma tags"), F: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) formSpec {
			return formSpec{word(t), g.Draw(t, "form tags")}
		}), 1, 4).Draw(t, "forms")}
	}), 0, 8).Draw(t, "lemmas")
	return d
}

// Words of the console's indexes. Digits, signs and spaces are letters like others.
var consoleWords = []string{"а", "аб", "абв", "ба", "еж", "ежа", "ёж", "из-за", "что бы", "a1", "12", "-3", "丽", "𝛑r", "ё", "яяя", "б-", "tx", "exit now", "setx", "e3", "т", "Аб", "0x7"}

// withEnd adds the word that ends answers.
func withEnd(d dictSpec) dictSpec {
	d.Tags = append(append([]tagDef(nil), d.Tags...), tagDef{endTag, ""})
	last := len(d.Tags) - 1
	d.Lemmas = append([]lemmaSpec(nil), d.Lemmas...)
	for i := range d.Lemmas { // tags are numbered modulo their number
		mod := func(g []int) (res []int) {
			for _, n := range g {
				res = append(res, n%last)
			}
			return res
		}
		if last > 0 {
			l := d.Lemmas[i]
			l.G = mod(l.G)
			l.F = append([]formSpec(nil), l.F...)
			for j := range l.F {
				l.F[j].G = mod(l.F[j].G)
			}
			d.Lemmas[i] = l
		}
	}
	d.Lemmas = append(d.Lemmas, lemmaSpec{L: endWord, F: []formSpec{{endWord, []int{last}}}})
	return d
}

// shown is a compiled index as its file has it, the reference of what the console shows.
type shown struct {
	f *file
	m *model
}

func compiledFor(d dictSpec) ([]byte, *shown) {
	dir, err := os.MkdirTemp("", "console")
	pbt.Must(err)
	defer func() { _ = os.RemoveAll(dir) }()
	pbt.Must(compile(dir, d.bytes(nil)))
	data, _ := readIf(filepath.Join(dir, compiledName))
	f, err := parse(data)
	pbt.Must(err)
	return data, &shown{f, f.model()}
}

func (s *shown) setNames(set []byte) []string {
	var res []string
	for _, t := range set {
		res = append(res, strings.TrimSpace(s.f.Tags[t][1]))
	}
	return res
}

// tagNames are the recognisable names shown with a tag: its own and its parent's.
func (s *shown) tagNames(n int) []string {
	return tagPattern.FindAllString(s.f.Tags[n][1]+" "+s.f.Tags[n][0], -1)
}

func (s *shown) tagAnswer(n int) (groups [][]string, has []string) {
	return [][]string{s.tagNames(n)}, []string{strings.Replace(s.f.Tags[n][0], "    ", marker, 1)}
}

func (s *shown) set(id uint64) ([]byte, bool) {
	g, r := id>>16, id&0xffff
	if id > math.MaxUint32 || g >= uint64(len(s.f.Sets)) || r >= uint64(len(s.f.Sets[g])) {
		return nil, false
	}
	return s.f.Sets[g][r], true
}

func (s *shown) coll(id uint64) ([]uint32, bool) {
	g, r := id>>16, id&0xffff
	if id > math.MaxUint32 || g == 0 || g > uint64(len(s.f.Colls)) || r >= uint64(len(s.f.Colls[g-1])) {
		return nil, false
	}
	return s.f.Colls[g-1][r], true
}

// line is one line typed.
type line struct {
	K    string // word, tag, tagname, set, table, var, node, nodeword, count, junk, long
	N    int    // which number: existing ones first, then others
	Text string
	Alt  int // spelling of command and number
}

type consoleCase struct {
	D     dictSpec
	Lines []line
	D2    *dictSpec // the index is replaced and reloaded in the middle
	At    int
	End   int // 0 exit, 1 e, 2 end of input, 3 the file is removed and reloaded, 4 truncated and reloaded
}

var junkLines = []string{"tag", "t", "set", "s", "node", "n", "var", "v", "tag ", "set ", "node  ", "var ", "tag 1 2", "tag count 3", "set table", "s table x", "set tables 5", "set table 1 2", "node 1 2", "node count x",
	"var 1 2", "v x", "set x", "set 0x", "set 0xg", "var 1e3", "  ", " ", "tag  1", "set  1", "t tag t", "n n n", "node -", "var -0", "set +", "tag 1.5", "tag 0x1", "%s%d%v", "`", "\\", "'\"", "reloads", "exits", "Exit", "EXIT",
	"tag %s", "node %d", "set %v", "var %!", "set 1_0", "v 0b1", "s 0o7", "count", "table", "tables", "t -", "s table -", "n 0x1", "n 1_0", "ё ё ё", "\u200b", "\u00a0", "\ufffd", "🙂", "тест\u0301"}

var strange = []string{"-1", "-0", "-2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
	"-9223372036854775808", "99999999999999999999999999", "65535", "131072", "16777216", "2147483647", "2147483648", "256", "255"}

// query is a line and what has to come of it.
type query struct {
	text string
	// what has to be in the answer
	fails  bool       // an error, with nothing shown
	groups [][]string // tag names in lines of their own
	has    []string   // texts
	node   int        // shown node, -1: none
	free   bool       // any answer will do
	absent bool       // a word not found
	known  string     // key of a known finding, which gives the answer alt
	alt    *query
}

func names(sets [][]string) [][]string {
	sort.Slice(sets, func(i, j int) bool { return fmt.Sprint(sets[i]) < fmt.Sprint(sets[j]) })
	return sets
}

func (s *shown) wordGroups(id int) [][]string {
	var res [][]string
	for k := range s.m.nodes[id].sets {
		var set []string
		for _, p := range strings.Split(k, ",") {
			n, _ := strconv.Atoi(p)
			set = append(set, string(s.m.tags[n].Name))
		}
		res = append(res, set)
	}
	return names(res)
}

// query makes the line and the answer.
func (s *shown) query(l line) query {
	q := query{node: -1}
	number := func(n uint64, hex bool) string {
		if hex && l.Alt%3 == 1 {
			return fmt.Sprintf("0x%x", n)
		}
		if hex && l.Alt%3 == 2 {
			return fmt.Sprintf("0X%X", n)
		}
		return strconv.FormatUint(n, 10)
	}
	cmd := func(long, short string) string { return []string{long, short}[l.Alt%2] + " " }
	other := strange[l.N%len(strange)]
	notEnd := func(g [][]string) [][]string { // answers showing the end tag are not asked for
		for _, set := range g {
			for _, t := range set {
				if t == endTag {
					return nil
				}
			}
		}
		return g
	}
	existing := l.N%4 != 3
	switch l.K {
	case "word":
		w := consoleWords[l.N%len(consoleWords)]
		if id := 0; existing && len(s.m.nodes) > 1 {
			id = 1 + l.N%(len(s.m.nodes)-1)
			w = s.m.word(id)
		}
		q.text = w
		if l.Alt%9 == 8 {
			q.text = w + "щ"
		}
		id, ok := s.m.find([]rune(q.text))
		q.absent = !ok
		if ok {
			q.groups = s.wordGroups(id)
			if len(q.groups) > 0 && notEnd(q.groups) == nil {
				return query{text: "щ", absent: true, node: -1}
			}
		}
		switch strings.Split(q.text, " ")[0] {
		case "tag", "t", "set", "s", "node", "n", "var", "v", "reload", "r", "exit", "e":
			return query{text: "щ", absent: true, node: -1}
		}
	case "tag":
		q.text = cmd("tag", "t")
		tags := len(s.f.Tags) - 1 // the last is the end tag
		if existing && tags > 0 {
			n := l.N % tags
			q.text += number(uint64(n), false)
			q.groups, q.has = s.tagAnswer(n)
			break
		}
		q.text, q.fails = q.text+other, true
		if l.N%2 == 0 {
			q.text = cmd("tag", "t") + strconv.Itoa(len(s.f.Tags)+l.N%3)
		} else if other == "-0" {
			q.fails, q.free = false, true
		}
	case "tagname":
		q.text = cmd("tag", "t")
		tags := len(s.f.Tags) - 1
		if existing && tags > 0 {
			n := l.N % tags
			q.text += s.f.Tags[n][1]
			q.groups, q.has = s.tagAnswer(n)
			for other := 0; other < n; other++ {
				if strings.EqualFold(s.f.Tags[n][1], s.f.Tags[other][1]) {
					q.known, q.alt = "tag-case", &query{text: q.text, node: -1}
					q.alt.groups, q.alt.has = s.tagAnswer(other)
					break
				}
			}
			break
		}
		q.text, q.fails = q.text+[]string{"NONE", "Qz99", "Q", "Qa000", "ё", "Pa01", "x"}[l.N%7], true
	case "set":
		q.text = cmd("set", "s")
		var all []uint64
		for g := range s.f.Sets {
			for r := range s.f.Sets[g] {
				all = append(all, uint64(g)<<16|uint64(r))
			}
		}
		if existing && len(all) > 0 {
			id := all[l.N%len(all)]
			set, _ := s.set(id)
			q.text += number(id, true)
			q.groups = notEnd([][]string{s.setNames(set)})
			if q.groups == nil {
				return query{text: "щ", absent: true, node: -1}
			}
			break
		}
		q.unknown(l, other, all, func(id uint64) bool { _, ok := s.set(id); return ok })
		n, err := strconv.ParseInt(strings.Split(q.text, " ")[1], 0, 64)
		if set, ok := s.set(uint64(uint32(n))); q.fails && err == nil && ok {
			q.known, q.alt = "set-wraps", &query{text: q.text, node: -1, groups: notEnd([][]string{s.setNames(set)})}
			if q.alt.groups == nil {
				return query{text: "щ", absent: true, node: -1}
			}
		}
	case "var":
		q.text = cmd("var", "v")
		var all []uint64
		for g := range s.f.Colls {
			for r := range s.f.Colls[g] {
				all = append(all, uint64(g+1)<<16|uint64(r))
			}
		}
		if existing && len(all) > 0 {
			id := all[l.N%len(all)]
			c, _ := s.coll(id)
			q.text += number(id, true)
			for _, setID := range c {
				set, ok := s.set(uint64(setID))
				if !ok {
					pbt.Works("compiling", fmt.Errorf("collection of an unknown set"))
				}
				q.groups = append(q.groups, s.setNames(set))
				q.has = append(q.has, strconv.FormatUint(uint64(setID), 10))
			}
			q.groups = names(notEnd(q.groups))
			if q.groups == nil {
				return query{text: "щ", absent: true, node: -1}
			}
			break
		}
		q.unknown(l, other, all, func(id uint64) bool { _, ok := s.coll(id); return ok || id == 0 })
	case "node", "nodeword":
		q.text = cmd("node", "n")
		id := l.N % len(s.m.nodes)
		if l.K == "node" {
			if l.N%5 == 4 {
				id = len(s.m.nodes) - 1 // the last
			}
			if !existing {
				q.fails, q.text = true, q.text+other
				if l.N%2 == 0 {
					q.text = cmd("node", "n") + strconv.Itoa(len(s.m.nodes)+l.N%4)
				} else if n, err := strconv.Atoi(other); err == nil && (other == "-0" || n > 0 && n < len(s.m.nodes)) {
					q.free = true
				} else if _, ok := s.m.find([]rune(other)); err != nil && ok {
					q.free = true
				}
				n, err := strconv.Atoi(strings.Split(q.text, " ")[1])
				if id := int(uint32(n)); q.fails && err == nil && n < 0 && id < len(s.m.nodes) {
					q.known, q.alt = "node-wraps", &query{text: q.text, node: id, groups: s.wordGroups(id)}
					if len(q.alt.groups) > 0 && notEnd(q.alt.groups) == nil {
						return query{text: "щ", absent: true, node: -1}
					}
				}
				return q
			}
			q.text += strconv.Itoa(id)
		} else {
			w := s.m.word(id)
			_, err := strconv.Atoi(w)
			if !existing || id == 0 || err == nil || strings.Contains(w, " ") || w == "count" {
				q.text, q.fails = q.text+[]string{"щ", "абвгд", "нетслова", "яяяя", "x"}[l.N%5], true
				return q
			}
			q.text += w
		}
		q.node = id
		q.groups = s.wordGroups(id)
		if len(q.groups) > 0 && notEnd(q.groups) == nil {
			return query{text: "щ", absent: true, node: -1}
		}
	case "count":
		switch l.N % 3 {
		case 0:
			q.text, q.has = cmd("tag", "t")+"count", []string{strconv.Itoa(len(s.f.Tags))}
		case 1:
			q.text, q.has = cmd("node", "n")+"count", []string{strconv.Itoa(len(s.m.nodes) - 1)}
		case 2:
			q.text, q.has = cmd("set", "s")+"tables", []string{strconv.Itoa(len(s.f.Sets))}
			for _, g := range s.f.Sets {
				q.has = append(q.has, strconv.Itoa(len(g)))
			}
		}
	case "table":
		q.text = cmd("set", "s") + "table "
		if existing && len(s.f.Sets) > 0 {
			n := l.N % len(s.f.Sets)
			q.text += strconv.Itoa(n)
			for _, set := range s.f.Sets[n] {
				var ids []string
				for _, t := range set {
					ids = append(ids, strconv.Itoa(int(t)))
				}
				q.has = append(q.has, strings.Join(ids, ","))
			}
			break
		}
		q.fails = true
		if l.N%2 == 0 {
			q.text += strconv.Itoa(len(s.f.Sets) + l.N%3)
		} else {
			q.text += other
			if n, err := strconv.Atoi(other); err == nil && n >= 0 && n < len(s.f.Sets) {
				q.fails, q.free = false, true
			}
		}
	case "long":
		q.text, q.absent = strings.Repeat(l.Text, 1+l.N%400)+"щ", true
	default:
		q.text, q.free = junkLines[l.N%len(junkLines)], true
		if l.Text != "" {
			q.text = l.Text
			switch strings.Split(q.text, " ")[0] {
			case "reload", "r", "exit", "e":
				q.text = "щ"
			}
		}
	}
	return q
}

// showsEnd tells if the answer of a line may have the tag that ends answers.
func (s *shown) showsEnd(text string) bool {
	p := strings.Split(text, " ")
	if len(p) != 2 {
		return false
	}
	n, err := strconv.ParseInt(p[1], 0, 64)
	m, errm := strconv.Atoi(p[1])
	last := byte(len(s.f.Tags) - 1)
	has := func(id uint64) bool { set, _ := s.set(id); return bytes.IndexByte(set, last) >= 0 }
	collHas := func(id uint64) bool {
		c, _ := s.coll(id)
		for _, set := range c {
			if has(uint64(set)) {
				return true
			}
		}
		return false
	}
	switch p[0] {
	case "tag", "t":
		return errm == nil && m == int(last)
	case "set", "s":
		return err == nil && has(uint64(uint32(n)))
	case "var", "v":
		return err == nil && collHas(uint64(uint32(n)))
	case "node", "n":
		id := int(uint32(m))
		if errm != nil {
			var ok bool
			if id, ok = s.m.find([]rune(p[1])); !ok {
				return false
			}
		}
		if id >= len(s.m.nodes) {
			return false
		}
		for _, g := range s.wordGroups(id) {
			for _, t := range g {
				if t == endTag {
					return true
				}
			}
		}
	}
	return false
}

// crashes tells if a line is one of the known findings which end the console: negative numbers of tags and tables.
func crashes(text string) bool {
	p := strings.Split(text, " ")
	negative := func(s string) bool { n, err := strconv.Atoi(s); return err == nil && n < 0 }
	switch {
	case len(p) == 2 && (p[0] == "tag" || p[0] == "t"):
		return negative(p[1])
	case len(p) == 3 && (p[0] == "set" || p[0] == "s") && p[1] == "table":
		return negative(p[2])
	}
	return false
}

// unknown asks for a number of nothing.
func (q *query) unknown(l line, other string, all []uint64, known func(uint64) bool) {
	if l.N%2 == 1 || len(all) == 0 {
		q.text += other
		if n, err := strconv.ParseUint(other, 10, 64); err == nil && known(n) || other == "-0" {
			q.free = true
			return
		}
		q.fails = true
		return
	}
	last := all[l.N%len(all)]
	for _, n := range []uint64{last&0xffff0000 | 0xffff, last + 0x10000*7, last + 1<<32, last + 1, (last>>16+1)<<16 | 0x8000} {
		if !known(n) {
			q.text, q.fails = q.text+strconv.FormatUint(n, 10), true
			return
		}
	}
}

var (
	tagPattern   = regexp.MustCompile(`Q[a-zA-Z]\d\d`)
	childPattern = regexp.MustCompile(`(.)\[(-?\d+)\]: (\d+)`)
	nodePattern  = regexp.MustCompile(`Node:\s+(\d+)`)
	wordPattern  = regexp.MustCompile(`Prefix: +(.*)`)
	upPattern    = regexp.MustCompile(`Parent:\s+(\d+)`)
)

// judge compares an answer with what has to come.
func (s *shown) judge(q query, answer string) error {
	bad := func(format string, args ...any) error {
		if len(answer) > 1500 {
			answer = answer[:1500] + "..."
		}
		return pbt.Errf("%q: %s; answered:\n%s", clip([]byte(q.text)), fmt.Sprintf(format, args...), answer)
	}
	var groups [][]string
	failed := false
	for _, l := range strings.Split(answer, "\n") {
		if strings.HasPrefix(l, "error ") || strings.Contains(l, "error opencorpora") {
			failed = true
			continue
		}
		if g := tagPattern.FindAllString(l, -1); len(g) > 0 {
			groups = append(groups, g)
		}
	}
	if q.free {
		return nil
	}
	if q.fails {
		if !failed {
			return bad("no error reported")
		}
		if len(groups) > 0 || nodePattern.MatchString(answer) {
			return bad("something was shown")
		}
		return nil
	}
	if failed {
		return bad("an error")
	}
	if q.absent && !strings.Contains(strings.ToLower(answer), "not found") {
		return bad("the word is not there, and not told so")
	}
	// a message may name the set before its tags are shown: lines without names do not count
	if want := q.groups; fmt.Sprint(names(groups)) != fmt.Sprint(want) && !(len(groups) == 0 && len(want) == 0) {
		return bad("showed %v, it is %v", groups, want)
	}
	for _, h := range q.has {
		if !strings.Contains(answer, h) {
			return bad("%q is not shown", h)
		}
	}
	if q.node < 0 {
		return nil
	}
	field := func(p *regexp.Regexp) string {
		if m := p.FindStringSubmatch(answer); m != nil {
			return m[1]
		}
		return "nothing"
	}
	n := s.m.nodes[q.node]
	if got := field(nodePattern); got != strconv.Itoa(q.node) {
		return bad("node %s shown, it is %d", got, q.node)
	}
	if got := field(upPattern); got != strconv.Itoa(n.parent) {
		return bad("parent %s shown, it is %d", got, n.parent)
	}
	if q.node != 0 {
		if got := field(wordPattern); got != s.m.word(q.node) {
			return bad("prefix %q shown, it is %q", got, s.m.word(q.node))
		}
	}
	children := map[string]bool{}
	for _, m := range childPattern.FindAllStringSubmatch(answer, -1) {
		children[m[1]+" "+m[2]+" "+m[3]] = true
	}
	if len(children) != len(n.children) {
		return bad("%d children shown, there are %d", len(children), len(n.children))
	}
	for letter, id := range n.children {
		if !children[fmt.Sprintf("%c %d %d", letter, letter, id)] {
			return bad("child %q (%d) is not shown", letter, id)
		}
	}
	return nil
}

// console is a running console.
type console struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	mu   sync.Mutex
	out  bytes.Buffer
	errs bytes.Buffer
	more chan struct{}
	done chan error
}

func (c *console) Write(p []byte) (int, error) {
	c.mu.Lock()
	c.out.Write(p)
	c.mu.Unlock()
	select {
	case c.more <- struct{}{}:
	default:
	}
	return len(p), nil
}

func (c *console) text() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out.String()
}

// answers counts complete answers: the end tag is shown at the end of each.
func answers(text string) int { return strings.Count(text, endTag) }

func startConsole(dir string) *console {
	c := &console{cmd: exec.Command(commandPath("opencorpora_test")), more: make(chan struct{}, 1), done: make(chan error, 1)}
	c.cmd.Dir = dir
	c.cmd.Env = append(os.Environ(), "VERIF_LOG=1", "HOME="+dir)
	c.cmd.Stdout, c.cmd.Stderr = c, &c.errs
	in, err := c.cmd.StdinPipe()
	pbt.Must(err)
	c.in = in
	pbt.Must(c.cmd.Start())
	go func() { c.done <- c.cmd.Wait() }()
	return c
}

// await waits for a number of answers.
func (c *console) await(n int) error {
	limit := time.After(patience)
	for answers(c.text()) < n {
		select {
		case <-c.more:
		case err := <-c.done:
			c.done <- err
			if answers(c.text()) >= n {
				return nil
			}
			return pbt.Errf("ended after %d of %d answers: %v\n%s\n%s", answers(c.text()), n, err, tail(c.text()), tail(c.errs.String()))
		case <-limit:
			return pbt.Errf("no answer")
		}
	}
	return nil
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}

// finish waits for the end.
func (c *console) finish() (int, error) {
	_ = c.in.Close()
	select {
	case <-c.done:
		return c.cmd.ProcessState.ExitCode(), nil
	case <-time.After(patience):
		return 0, pbt.Errf("does not end\n%s", tail(c.text()))
	}
}

func (c *console) kill() {
	_ = c.cmd.Process.Kill()
	_ = c.in.Close()
}

func runConsole(ctx *pbt.Ctx, c consoleCase) error {
	top := ctx.Scratch()
	dir := filepath.Join(top, "work")
	data := filepath.Join(dir, ".data", "opencorpora")
	pbt.Must(os.MkdirAll(data, 0o755))
	file := filepath.Join(data, compiledName)
	bin, index := compiledFor(withEnd(c.D))
	writeFile(file, bin)
	before := tree.Snapshot(dir)
	con := startConsole(dir)
	defer con.kill()
	var queries []query
	var indexes []*shown
	send := func(text string) { _, _ = io.WriteString(con.in, text+"\n"+endWord+"\n") }
	// the first answer tells that the index is loaded
	queries, indexes = append(queries, query{text: "щ", absent: true, node: -1}), append(indexes, index)
	send(queries[0].text)
	for i, l := range c.Lines {
		if c.D2 != nil && i == c.At%len(c.Lines) {
			if err := con.await(len(queries)); err != nil {
				return err
			}
			bin, index = compiledFor(withEnd(*c.D2))
			writeFile(file, bin)
			before = tree.Snapshot(dir)
			queries, indexes = append(queries, query{text: []string{"reload", "r"}[i%2], free: true}), append(indexes, index)
			send(queries[len(queries)-1].text)
			ctx.Label("reloaded")
		}
		q := index.query(l)
		if crashes(q.text) || index.showsEnd(q.text) {
			q = query{text: "щ", absent: true, node: -1}
		}
		queries, indexes = append(queries, q), append(indexes, index)
		send(q.text)
		ctx.LabelIf(!q.free && !q.fails, "%s", l.K)
		ctx.LabelIf(q.fails, "%s of nothing", l.K)
		if len(queries)%16 == 0 { // never more than a pipe holds
			if err := con.await(len(queries) - 8); err != nil {
				return err
			}
		}
	}
	if err := con.await(len(queries)); err != nil {
		return pbt.Errf("lines %q: %v", texts(queries), err)
	}
	want := 0
	switch c.End {
	case 0, 1:
		_, _ = io.WriteString(con.in, []string{"exit", "e"}[c.End]+"\n"+endWord+"\n")
	case 3:
		pbt.Must(os.Remove(file))
		want = 1
		_, _ = io.WriteString(con.in, "reload\n")
	case 4:
		writeFile(file, bin[:len(bin)*(c.At%100)/100])
		want = 1
		_, _ = io.WriteString(con.in, "r\n")
	}
	if want != 0 {
		ctx.Label("reload failing")
	}
	code, err := con.finish()
	if err != nil {
		return err
	}
	if (code != 0) != (want != 0) {
		return pbt.Errf("end %d: exit status %d\n%s\n%s", c.End, code, tail(con.text()), tail(con.errs.String()))
	}
	ctx.Exec(len(queries))
	text := con.text()
	if n := answers(text); n != len(queries) {
		return pbt.Errf("%d answers to %d lines (after exit none is due)\n%s", n, len(queries), tail(text))
	}
	parts := strings.Split(text, endTag)
	real := 0
	for i, q := range queries {
		answer := parts[i]
		if i > 0 { // the rest of the line with the end tag
			if at := strings.IndexByte(answer, '\n'); at >= 0 {
				answer = answer[at+1:]
			}
		} else {
			// messages of the start
			if at := strings.LastIndex(answer, "nodes\n"); at >= 0 {
				answer = answer[at:]
			}
		}
		err := indexes[i].judge(q, answer)
		if err != nil && q.known != "" && indexes[i].judge(*q.alt, answer) == nil {
			err = ctx.Known(q.known, err)
		}
		if err != nil {
			return pbt.Errf("line %d of %q: %v", i+1, texts(queries[:i+1]), err)
		}
		if len(q.groups) > 0 || q.node >= 0 {
			real++
		}
	}
	ctx.NonTrivialIf(real >= 2 && len(queries) >= 4)
	if want == 0 {
		if d := tree.Diff(before, tree.Snapshot(dir)); len(d) > 0 {
			return pbt.Errf("the console has %s", strings.Join(d, ", "))
		}
	}
	return nil
}

func texts(queries []query) (res []string) {
	for _, q := range queries {
		t := q.text
		if len(t) > 60 {
			t = t[:60] + "..."
		}
		res = append(res, t)
	}
	return res
}

func genLine(t *rapid.T) line {
	l := line{
		K:   rapid.SampledFrom([]string{"word", "word", "word", "tag", "tagname", "set", "set", "var", "var", "node", "node", "nodeword", "count", "table", "junk", "junk", "long"}).Draw(t, "line"),
		N:   rapid.IntRange(0, 199).Draw(t, "number"),
		Alt: rapid.IntRange(0, 17).Draw(t, "spelling"),
	}
	switch {
	case l.K == "long":
		l.Text = rapid.SampledFrom([]string{"а", "x", "ё-", "丽", "ab ", "12"}).Draw(t, "text")
	case l.K == "junk" && l.N%3 == 0:
		l.Text = rapid.StringOfN(rapid.SampledFrom([]rune("tsnvreагб 019-xF\"%$&/()=?ß~*'#.:,;<>|^°{}[]\\ёŁ丽🙂")), 1, 12, -1).Draw(t, "text")
	}
	return l
}

// aloneCase is a session of one line, which may end the console.
type aloneCase struct {
	D    dictSpec
	Kind int // negative tag, negative table, last node, another last node, set beyond 32 bits, negative node, tag differing in case
	N    int
	Alt  int
}

func genAlone(t *rapid.T) aloneCase {
	return aloneCase{consoleDict(t), rapid.IntRange(0, 5).Draw(t, "kind"), rapid.IntRange(1, 300).Draw(t, "number"), rapid.IntRange(0, 5).Draw(t, "spelling")}
}

func runAlone(ctx *pbt.Ctx, c aloneCase) error {
	dir := ctx.Scratch()
	data := filepath.Join(dir, ".data", "opencorpora")
	pbt.Must(os.MkdirAll(data, 0o755))
	if c.Kind == 5 {
		c.D.Tags = append(c.D.Tags[:1:1], tagDef{strings.ToUpper(c.D.Tags[0].Name[:2]) + c.D.Tags[0].Name[2:], "Pb77"}, tagDef{strings.ToLower(c.D.Tags[0].Name), "Pc77"})
		c.D.Tags = c.D.Tags[:2+c.N%2]
	}
	bin, s := compiledFor(c.D)
	writeFile(filepath.Join(data, compiledName), bin)
	long := c.Alt%2 == 0
	q := query{node: -1, fails: true}
	n := -c.N
	if c.Alt == 5 {
		n = math.MinInt64 + c.N - 1
	}
	last := len(s.m.nodes) - 1
	switch c.Kind {
	case 0:
		q.text, q.known = fmt.Sprintf("tag %d", n), "tag-negative"
	case 1:
		q.text, q.known = fmt.Sprintf("set table %d", n), "table-negative"
	case 2:
		q = query{text: fmt.Sprintf("node %d", last), node: last, groups: s.wordGroups(last), known: "last-node", alt: &query{fails: true, node: -1}}
	case 3:
		id, set := -1, []byte(nil)
		for g := range s.f.Sets {
			if len(s.f.Sets[g]) > 0 {
				id = g<<16 | c.N%len(s.f.Sets[g])
				set, _ = s.set(uint64(id))
			}
		}
		if id < 0 {
			return nil
		}
		q.text, q.known = fmt.Sprintf("set %d", int64(id)+int64(c.N-c.Alt*50)<<32), "set-wraps"
		q.alt = &query{node: -1, groups: [][]string{s.setNames(set)}}
		if c.N == c.Alt*50 {
			q.fails, q.groups = false, q.alt.groups
		}
	case 4:
		id := c.N % len(s.m.nodes)
		q.text, q.known = fmt.Sprintf("node %d", int64(id)-int64(c.N)<<32), "node-wraps"
		q.alt = &query{node: id, groups: s.wordGroups(id)}
	case 5:
		n := c.N % len(s.f.Tags)
		q = query{text: "tag " + s.f.Tags[n][1], node: -1, known: "tag-case", alt: &query{node: -1}}
		q.groups, q.has = s.tagAnswer(n)
		q.alt.groups, q.alt.has = s.tagAnswer(0)
	}
	if !long {
		word, rest, _ := strings.Cut(q.text, " ")
		q.text = word[:1] + " " + rest
	}
	ctx.Label("%s", q.known)
	ctx.NonTrivial()
	ctx.Exec(1)
	con := startConsole(dir)
	defer con.kill()
	_, _ = io.WriteString(con.in, q.text+"\n")
	code, err := con.finish()
	if err != nil {
		return pbt.Errf("%q: %v", q.text, err)
	}
	answer, errs := con.text(), con.errs.String()
	if at := strings.LastIndex(answer, "nodes\n"); at >= 0 {
		answer = answer[at:]
	}
	if code != 0 {
		err = pbt.Errf("%q: exit status %d\n%s\n%s", q.text, code, tail(answer), tail(errs))
		if c.Kind < 2 && strings.HasPrefix(errs, fmt.Sprintf("panic: runtime error: index out of range [%d]", n)) {
			err = ctx.Known(q.known, err)
		}
		return err
	}
	err = s.judge(q, answer)
	if err != nil && q.alt != nil && s.judge(*q.alt, answer) == nil {
		err = ctx.Known(q.known, err)
	}
	return err
}

// unloadable is a console started without a loadable index.
type unloadable struct {
	Kind, Cut int
}

func c01() pbt.Property {
	return pbt.Property{
		ID:   "C01",
		Rule: "at least 4 lines, 2 of them asking for something there is",
		Assumptions: []string{
			"lines come through a pipe and consist of printable characters; terminal control characters are the line editor's matter",
			"messages are those of the shim of the logging library, one line each, errors at level error; tag names are made recognisable",
		},
		Shards: 8,
		Facets: []pbt.Facet{
			pbt.Rapid("session", 5000, 60000, func(t *rapid.T) consoleCase {
				c := consoleCase{
					D: consoleDict(t), Lines: rapid.SliceOfN(rapid.Custom(genLine), 1, 30).Draw(t, "lines"),
					At: rapid.IntRange(0, 1000).Draw(t, "at"), End: rapid.SampledFrom([]int{0, 0, 1, 2, 2, 3, 4}).Draw(t, "end"),
				}
				if rapid.IntRange(0, 2).Draw(t, "reloaded") == 0 {
					d := consoleDict(t)
					c.D2 = &d
				}
				return c
			}, runConsole),
			// everything a larger index holds is shown
			pbt.Enum("all", func(tier string, yield func(consoleCase) bool) {
				seeds := 8
				if tier == "thorough" {
					seeds = 80
				}
				for seed := 1; seed <= seeds; seed++ {
					d := bulkDict(40, 12, seed)
					for i := range d.Tags {
						d.Tags[i].Name = fmt.Sprintf("Q%c%02d", 'a'+i%26, i)
					}
					c := consoleCase{D: d, End: seed % 3}
					for _, k := range []string{"tag", "tagname", "set", "var", "node", "nodeword", "table", "word"} {
						n := 40
						if k == "node" || k == "word" || k == "nodeword" {
							n = 120
						}
						for i := 0; i < n; i++ {
							c.Lines = append(c.Lines, line{K: k, N: i + seed, Alt: i})
						}
					}
					if !yield(c) {
						return
					}
				}
			}, runConsole),
			pbt.Rapid("alone", 500, 6000, genAlone, runAlone),
			pbt.Enum("unloadable", func(_ string, yield func(unloadable) bool) {
				for kind := 0; kind < 6; kind++ {
					for cut := 0; cut < 20; cut++ {
						if kind < 4 && cut > 0 {
							break
						}
						if !yield(unloadable{kind, cut}) {
							return
						}
					}
				}
			}, func(ctx *pbt.Ctx, u unloadable) error {
				dir := ctx.Scratch()
				data := filepath.Join(dir, ".data", "opencorpora")
				file := filepath.Join(data, compiledName)
				bin := editionNo(5).dat
				if u.Kind > 0 {
					pbt.Must(os.MkdirAll(data, 0o755))
				}
				what := ""
				switch u.Kind {
				case 0, 1:
					what = "no index"
				case 2:
					what = "a directory as index"
					pbt.Must(os.Mkdir(file, 0o755))
				case 3:
					what = "an empty index"
					writeFile(file, nil)
				case 4:
					n := len(bin) * u.Cut / 20
					what = fmt.Sprintf("an index cut to %d of %d bytes", n, len(bin))
					writeFile(file, bin[:n])
				case 5:
					what = "an index with a wrong section name"
					at := []int{0, 1, 2}[u.Cut%3]
					bad := append([]byte(nil), bin...)
					bad[at] ^= byte(1 + u.Cut)
					writeFile(file, bad)
				}
				ctx.NonTrivial()
				ctx.Exec(1)
				before := tree.Snapshot(dir)
				con := startConsole(dir)
				defer con.kill()
				_, _ = io.WriteString(con.in, "а\nexit\n")
				code, err := con.finish()
				if err != nil {
					return pbt.Errf("%s: %v", what, err)
				}
				if code == 0 {
					return pbt.Errf("%s: exit status 0\n%s", what, tail(con.text()))
				}
				if crashed(con.errs.String()) {
					return pbt.Errf("%s: crashed\n%s", what, tail(con.errs.String()))
				}
				if d := tree.Diff(before, tree.Snapshot(dir)); len(d) > 0 {
					return pbt.Errf("%s: the console has %s", what, strings.Join(d, ", "))
				}
				return nil
			}),
		},
	}
}

func crashed(stderr string) bool {
	return strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:")
}

// ---------------------------------------------------------------- C02

// commandCase is a history of runs of the update command.
type commandCase struct {
	H    updateHistory
	Args []int // spelling of each run
}

var (
	forcedArgs   = [][]string{{}, {"-f"}, {"-f=true"}, {"--f"}, {"-d"}, {"-d", "-f"}, {"-f=1"}, {"-d=false"}, {"extra"}}
	unforcedArgs = [][]string{{"-f=false"}, {"--f=false"}, {"-f=0"}, {"-d", "-f=false"}, {"-f=false", "-d=false"}, {"-f=F"}}
	otherArgs    = [][]string{{"-h"}, {"--h"}, {"-h", "-f"}, {"-f=false", "-h"}, {"-h=true"}, {"-x"}, {"-f=maybe"}, {"--nothing"}}
)

const helps = 5 // otherArgs asking for help come first

// run runs the update command.
func runUpdateCommand(dir string, args []string, log bool) (code int, out, errs string, err error) {
	cmd := exec.Command(commandPath("opencorpora_update"), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), append(web.Start().Env(), "HOME="+dir)...)
	if log {
		cmd.Env = append(cmd.Env, "VERIF_LOG=1")
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	pbt.Must(cmd.Start())
	timer := time.AfterFunc(patience, func() { _ = cmd.Process.Kill() })
	_ = cmd.Wait()
	if !timer.Stop() {
		return 0, "", "", pbt.Errf("the update command does not end")
	}
	return cmd.ProcessState.ExitCode(), o.String(), e.String(), nil
}

func runCommand(ctx *pbt.Ctx, c commandCase) error {
	top := ctx.Scratch()
	cwd := filepath.Join(top, "work")
	pbt.Must(os.Mkdir(cwd, 0o755))
	writeFile(filepath.Join(cwd, archiveName), []byte("not yours"))
	s := &site{h: &c.H, top: top, dir: filepath.Join(cwd, ".data", "opencorpora")}
	var failed error
	n := 0
	s.update = func(force bool) error {
		forms := unforcedArgs
		if force {
			forms = forcedArgs
		}
		alt := c.Args[n%len(c.Args)]
		n++
		args := forms[alt%len(forms)]
		code, _, errs, err := runUpdateCommand(cwd, args, alt%2 == 0)
		if err != nil {
			failed = err
			return err
		}
		if crashed(errs) {
			failed = pbt.Errf("%q crashed: %s", args, tail(errs))
		}
		if code == 0 {
			return nil
		}
		return fmt.Errorf("exit status %d of %q", code, args)
	}
	for i, u := range c.H.Steps {
		if alt := c.Args[i%len(c.Args)]; alt%5 == 4 {
			if err := runOther(ctx, s, cwd, otherArgs[alt/5%len(otherArgs)], alt/5%len(otherArgs) < helps); err != nil {
				return err
			}
		}
		u.Disk = 0
		ctx.LabelIf(u.Head != 0, "question: %s", headNames[u.Head])
		ctx.LabelIf(u.Get != 0, "download: %s", getNames[u.Get])
		if err := s.step(ctx, u); err != nil {
			return pbt.Errf("run %d: %v", i+1, err)
		}
		if failed != nil {
			return failed
		}
	}
	ctx.NonTrivialIf(len(c.H.Steps) >= 2 && c.H.failures() > 0)
	return s.recovers(ctx, c.Args[0]%2 == 0)
}

// runOther runs the command for something else than an update.
func runOther(ctx *pbt.Ctx, s *site, cwd string, args []string, help bool) error {
	server := web.Start()
	server.Script((&updateStep{}).answers(s.edition(s.issue), s.issue))
	before := tree.Snapshot(s.top)
	code, out, errs, err := runUpdateCommand(cwd, args, false)
	ctx.Exec(1)
	if err != nil {
		return err
	}
	ctx.Label("%v", args)
	if d := tree.Diff(before, tree.Snapshot(s.top)); len(d) > 0 {
		return pbt.Errf("%q: %s", args, strings.Join(d, ", "))
	}
	if r := server.Requests(); len(r) > 0 {
		return pbt.Errf("%q: requests %v", args, r)
	}
	if (code == 0) != help {
		return pbt.Errf("%q: exit status %d\n%s", args, code, tail(errs))
	}
	if help && len(out)+len(errs) == 0 {
		return pbt.Errf("%q: no help", args)
	}
	return nil
}

func c02() pbt.Property {
	gen := genUpdates(4)
	return pbt.Property{
		ID:   "C02",
		Rule: "at least 2 runs before the final one, with a failure among them",
		Assumptions: []string{
			"the server is a scripted HTTP proxy on the loopback interface, which the command is told of by its environment",
			"after each download the file's time is set to half an hour after the issue, as if issues were hours apart",
		},
		Shards: 8,
		Facets: []pbt.Facet{
			pbt.Rapid("history", 700, 9000, func(t *rapid.T) commandCase {
				return commandCase{gen(t), rapid.SliceOfN(rapid.IntRange(0, 79), 4, 4).Draw(t, "arguments")}
			}, runCommand),
			pbt.Enum("single", func(_ string, yield func(commandCase) bool) {
				for before := 0; before < 2; before++ {
					for force := 0; force < 2; force++ {
						for del := 0; del < 8; del++ {
							for i, q := range [][2]int{{headOK, getOK}, {headOK, get404}, {head500, getOK}, {headDrop, getDrop}, {headOK, getBroken}, {headOK, getTruncated}} {
								steps := []updateStep{{Force: force == 1, Head: q[0], Get: q[1], New: i % 2, Cut: 400, Delete: del}}
								if before == 1 {
									steps = append([]updateStep{{Force: i%2 == 0}}, steps...)
								} else if del > 0 {
									continue
								}
								if !yield(commandCase{updateHistory{First: 4, Steps: steps}, []int{i + del, i, del, 3}}) {
									return
								}
							}
						}
					}
				}
			}, runCommand),
			pbt.Enum("other", func(_ string, yield func(commandCase) bool) {
				for i := range otherArgs {
					for ready := 0; ready < 2; ready++ {
						if !yield(commandCase{updateHistory{First: 4}, []int{i, ready}}) {
							return
						}
					}
				}
			}, func(ctx *pbt.Ctx, c commandCase) error {
				top := ctx.Scratch()
				s := &site{h: &c.H, top: top, dir: filepath.Join(top, ".data", "opencorpora")}
				if c.Args[1] == 1 {
					pbt.Must(os.MkdirAll(s.dir, 0o755))
					writeFile(s.path(archiveName), s.edition(0).archive)
				}
				ctx.NonTrivial()
				return runOther(ctx, s, top, otherArgs[c.Args[0]], c.Args[0] < helps)
			}),
		},
	}
}
