package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/tree"
	"github.com/amarin/gomorphy/verif/xio"

	"pgregory.net/rapid"
)

const (
	archiveName  = opencorpora.LocalSourceFilename
	unpackedName = opencorpora.LocalUnpackedFilename
	compiledName = opencorpora.LocalCompiledFilename
)

func writeFile(path string, data []byte) { pbt.Must(os.WriteFile(path, data, 0o644)) }

// readIf reads a file that may be missing.
func readIf(path string) ([]byte, bool) {
	data, err := os.ReadFile(path)
	if errors.Is(err, os.ErrNotExist) {
		return nil, false
	}
	pbt.Must(err)
	return data, true
}

// compile compiles a dictionary in dir.
func compile(dir string, dict []byte) (err error) {
	from := filepath.Join(dir, unpackedName)
	writeFile(from, dict)
	return opencorpora.NewLoader(dir).ParseUpdate(from, filepath.Join(dir, compiledName))
}

// ---------------------------------------------------------------- O01

type compiled struct {
	Dict   dictSpec
	Style  []byte
	Style2 []byte // another way to write the same down
}

func runCompile(max int) func(*pbt.Ctx, compiled) error {
	return func(ctx *pbt.Ctx, c compiled) error {
		dir := ctx.Scratch()
		text := c.Dict.bytes(c.Style)
		if err := compile(dir, text); err != nil {
			return pbt.Errf("compiling failed: %v\n%s", err, clip(text))
		}
		ctx.Turn()
		idx, err := opencorpora.NewLoader(dir).LoadIndex()
		if err != nil {
			return pbt.Errf("loading the compiled index: %v", err)
		}
		ctx.Turn()
		m := c.Dict.model()
		if err = m.sameContent(idx, max); err != nil {
			return pbt.Errf("%v\n%s", err, clip(text))
		}
		first, _ := readIf(filepath.Join(dir, compiledName))
		if _, err = parse(first); err != nil {
			return pbt.Errf("the compiled file does not have the layout: %v", err)
		}
		ctx.Turn()
		if err = compile(dir, text); err != nil {
			return pbt.Errf("compiling again failed: %v", err)
		}
		if again, _ := readIf(filepath.Join(dir, compiledName)); !bytes.Equal(first, again) {
			return pbt.Errf("compiled again, the file differs at byte %d", firstDiff(first, again))
		}
		ctx.Turn()
		if text2 := c.Dict.bytes(c.Style2); !bytes.Equal(text, text2) {
			if err = compile(dir, text2); err != nil {
				return pbt.Errf("compiling failed: %v\n%s", err, clip(text2))
			}
			if again, _ := readIf(filepath.Join(dir, compiledName)); !bytes.Equal(first, again) {
				return pbt.Errf("written down otherwise, the same dictionary gives another index, at byte %d\n%s\n%s", firstDiff(first, again), clip(text), clip(text2))
			}
			ctx.Label("two ways to write it")
			ctx.Exec(1)
		}
		ctx.Exec(2)
		shared, several := false, false
		seen := map[string]int{}
		for i, l := range c.Dict.Lemmas {
			for _, f := range l.F {
				if at, ok := seen[f.W]; ok && at != i {
					shared = true
				}
				seen[f.W] = i
			}
		}
		for i := range m.nodes {
			several = several || len(m.nodes[i].sets) > 1
		}
		ctx.LabelIf(shared, "a form of several lemmas")
		ctx.LabelIf(several, "a form with several tag sets")
		ctx.NonTrivialIf(m.words() >= 3)
		return nil
	}
}

func clip(text []byte) string {
	if len(text) > 3000 {
		text = append(append([]byte(nil), text[:3000]...), "..."...)
	}
	return string(text)
}

func o01() pbt.Property {
	return pbt.Property{
		ID:   "O01",
		Rule: "at least 3 words with tags",
		Assumptions: []string{
			"the XML reader of the library used (github.com/amarin/libxml, not available offline) is a stand-in on encoding/xml that hands over every token in order",
			"tag names of 4 bytes, words not empty, grammemes before lemmata, no text where the format has none",
		},
		Shards: 8,
		Facets: []pbt.Facet{
			pbt.Rapid("dictionary", 12000, 250000, func(t *rapid.T) compiled {
				return compiled{genDict(t, 7), genStyle(t), genStyle(t)}
			}, runCompile(0)),
			compiledElsewhere(),
			pbt.Rapid("many-tags", 400, 6000, func(t *rapid.T) compiled {
				d := genDict(t, 12)
				for i, n := 0, rapid.IntRange(1, 200).Draw(t, "more tags"); i < n; i++ {
					d.Tags = append(d.Tags, tagDef{fmt.Sprintf("m%03d", i), []string{"", "POST", "m000"}[i%3]})
				}
				step := rapid.IntRange(1, 300).Draw(t, "step")
				for i := range d.Lemmas {
					for j := range d.Lemmas[i].F {
						d.Lemmas[i].F[j].G = append(d.Lemmas[i].F[j].G, step*(i+1)+j)
					}
				}
				return compiled{d, genStyle(t), nil}
			}, runCompile(0)),
			pbt.Enum("large", func(tier string, yield func(compiled) bool) {
				sizes := []int{300, 1200, 3000}
				if tier == "thorough" {
					sizes = append(sizes, 10000, 40000)
				}
				for _, n := range sizes {
					for seed := 1; seed <= 3; seed++ {
						if !yield(compiled{bulkDict(n, 60+50*seed, seed), []byte{3, 1, 4, 1, 5, 9, 2, 6}, nil}) {
							return
						}
					}
				}
			}, runCompile(4000)),
			pbt.Enum("extreme", func(tier string, yield func(extreme) bool) {
				sizes := [][]int{{33, 65, 101, 129, 257, 513, 1025}, {17, 33, 65, 101, 129, 250}, {17, 33, 65, 101, 129, 250}, {33, 65, 129, 255}, {65, 129, 257, 513, 1025}, {2000, 66000}, {50}}
				if tier == "thorough" {
					sizes = [][]int{{2049, 4097, 20001}, {251, 252, 253}, {251, 252, 253}, {63, 64, 127, 128, 253, 254}, {2049, 4097}, {10000, 140000, 400000}, {200}}
				}
				for what, list := range sizes {
					for _, n := range list {
						if !yield(extreme{what, n}) {
							return
						}
					}
				}
			}, func(ctx *pbt.Ctx, x extreme) error {
				ctx.Label("%s", extremeNames[x.What])
				return runCompile(100)(ctx, compiled{x.dict(), nil, nil})
			}),
			pbt.Enum("slow", func(tier string, yield func(slow) bool) {
				for i, pauses := range [][]int{{10300}, {0, 10300, 10300}, {4000, 7000, 4000, 7000}} {
					if i > 0 && tier != "thorough" || !yield(slow{bulkDict(30, 40, i+1), pauses}) {
						return
					}
				}
			}, runSlow),
		},
	}
}

// slow is a dictionary read from a source that pauses.
type slow struct {
	Dict   dictSpec
	Pauses []int // milliseconds
}

func runSlow(ctx *pbt.Ctx, c slow) error {
	dir := ctx.Scratch()
	from, to := filepath.Join(dir, unpackedName), filepath.Join(dir, compiledName)
	text := c.Dict.bytes(nil)
	pbt.Must(syscall.Mkfifo(from, 0o600))
	source, err := os.OpenFile(from, os.O_RDWR, 0) // does not wait for the reader
	pbt.Must(err)
	go func() {
		defer source.Close()
		for i, pause := range c.Pauses {
			n := len(text) / (len(c.Pauses) + 1 - i)
			if _, err := source.Write(text[:n]); err != nil {
				return
			}
			text = text[n:]
			time.Sleep(time.Duration(pause) * time.Millisecond)
		}
		source.Write(text)
		time.Sleep(200 * time.Millisecond) // so that it is open for reading by then
	}()
	ctx.Exec(1)
	ctx.NonTrivial()
	ctx.Label("%d pauses", len(c.Pauses))
	if err := opencorpora.NewLoader(dir).ParseUpdate(from, to); err != nil {
		return pbt.Errf("compiling from a source that pauses for %v ms: %v", c.Pauses, err)
	}
	idx, err := opencorpora.NewLoader(dir).LoadIndex()
	if err != nil {
		return pbt.Errf("loading what was compiled from a source that pauses for %v ms: %v", c.Pauses, err)
	}
	return c.Dict.model().sameContent(idx, 0)
}

// ---------------------------------------------------------------- O02

// broken is a dictionary with one kind of damage, and what was compiled before.
type broken struct {
	Dict  dictSpec
	Style []byte
	Kind  int
	At, N int
	Prev  int // 0 nothing compiled before, 1 an index, 2 something else under its name
}

var damageNames = []string{
	"mismatched end", "end missing", "start missing", "unknown element", "attribute missing", "undefined tag", "bad character", "stray markup",
	"another root", "too many tags", "tag name of a wrong length", "no dictionary at all", "misplaced element", "attribute cut off",
	"no number where one is due",
}

// damage applies the damage; false: there is nothing to apply it to.
func (c *broken) damage() ([]byte, bool) {
	tokens, s := c.Dict.tokensOf(c.Style)
	pick := func(f func(token) bool) int {
		var at []int
		for i, t := range tokens {
			if f(t) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return -1
		}
		return at[c.At%len(at)]
	}
	kind := func(k byte) func(token) bool { return func(t token) bool { return t.Kind == k } }
	insert := func(at int, more ...token) {
		tokens = append(tokens[:at], append(append([]token(nil), more...), tokens[at:]...)...)
	}
	inside := func(t token) bool { return t.Path != "" && (t.Kind == 's' && t.Name != "dictionary" || t.Kind == 'e') }
	switch c.Kind {
	case 0:
		i := pick(kind('e'))
		// written out, so that it is not taken for an empty element
		tokens[i] = token{Kind: 'o', Text: "</" + tokens[i].Name + []string{"x", "-", ".a"}[c.N%3] + ">", Path: tokens[i].Path}
	case 1:
		i := pick(kind('e'))
		tokens[i] = token{Kind: 'o', Text: " "}
	case 2:
		i := pick(kind('s'))
		tokens[i] = token{Kind: 'o', Text: " "}
	case 3:
		name := []string{"foo", "Grammeme", "lemmas", "x", "ё"}[c.N%5]
		insert(pick(inside), token{Kind: 's', Name: name}, token{Kind: 'e', Name: name})
	case 4:
		required := map[string]bool{"grammeme": true, "l": true, "f": true, "g": true, "lemma": true}
		i := pick(func(t token) bool { return t.Kind == 's' && required[t.Name] })
		if i < 0 {
			return nil, false
		}
		n := c.N % len(tokens[i].Attrs)
		attrs := append([][2]string(nil), tokens[i].Attrs...)
		if c.N%2 == 0 {
			attrs = append(attrs[:n], attrs[n+1:]...)
		} else {
			attrs[n][0] += "x"
		}
		tokens[i].Attrs = attrs
	case 5:
		// a tag of a form, or of a lemma with forms
		withForms := map[int]bool{} // base forms, by place, of lemmas with forms
		lemma, form := -1, false
		for at, t := range tokens {
			switch {
			case t.Kind == 's' && t.Name == "lemma":
				lemma, form = -1, false
			case t.Kind == 's' && t.Name == "l":
				lemma = at
			case t.Kind == 's' && t.Name == "f":
				form = true
			case t.Kind == 'e' && t.Name == "lemma" && form:
				withForms[lemma] = true
			}
		}
		var where []int
		for at, t := range tokens {
			if t.Kind == 's' && (t.Name == "f" || t.Name == "l" && withForms[at]) {
				where = append(where, at)
			}
		}
		if len(where) == 0 {
			return nil, false
		}
		i := where[c.At%len(where)]
		name := []string{"NONE", "noun", "XXXX", "----", "t99x", "toolong", "", "    "}[c.N%8]
		for _, t := range c.Dict.Tags {
			if t.Name == name {
				return nil, false
			}
		}
		insert(i+1, token{Kind: 's', Name: "g", Attrs: [][2]string{{"v", name}}}, token{Kind: 'e', Name: "g"})
	case 6:
		bad := []string{"\x01", "\xff", "&nope;", "&#0;", "&#xFFFF;", "\xed\xa0\x80", "&amp ", "\x00"}[c.N%8]
		i := pick(func(t token) bool { return t.Kind == 's' && len(t.Attrs) > 0 || t.Kind == 't' })
		if i < 0 {
			return nil, false
		}
		text := s.write(tokens[:i])
		var b bytes.Buffer
		b.Write(text)
		if tokens[i].Kind == 't' {
			b.WriteString(bad)
			b.Write((&style{}).write(tokens[i:]))
		} else {
			rest := (&style{}).write(tokens[i:])
			q := bytes.IndexByte(rest, '"')
			b.Write(rest[:q+1])
			b.WriteString(bad)
			b.Write(rest[q+1:])
		}
		return b.Bytes(), true
	case 7:
		insert(pick(inside), token{Kind: 'o', Text: []string{"<", "&", "</", "<>", "< g/>", "<1/>", "<![CDATA", "<-->", "</ x>", "<g v=x/>", "<a b>", "&;"}[c.N%12]})
	case 8:
		for i := range tokens {
			if tokens[i].Name == "dictionary" {
				tokens[i].Name = []string{"Dictionary", "dict", "html", "lemmata"}[c.N%4]
			}
		}
	case 9:
		i := pick(func(t token) bool { return t.Kind == 'e' && t.Name == "grammemes" })
		var more []token
		have := map[string]bool{}
		for _, t := range c.Dict.Tags {
			have[t.Name] = true
		}
		total := 256 + []int{0, 1, 2, 44, 256, 300}[c.N%6]
		for n := len(have); n < total; n++ {
			more = append(more, token{Kind: 's', Name: "grammeme", Attrs: [][2]string{{"parent", ""}}}, token{Kind: 's', Name: "name"},
				token{Kind: 't', Text: fmt.Sprintf("%04x", 0xa000+n)}, token{Kind: 'e', Name: "name"}, token{Kind: 'e', Name: "grammeme"})
		}
		if i > 0 && tokens[i-1].Kind == 's' && tokens[i-1].Name == "grammemes" {
			more = append(more, token{Kind: 'o', Text: "\n"})
		}
		insert(i, more...)
	case 10:
		i := pick(func(t token) bool { return t.Kind == 's' && t.Name == "grammeme" })
		if i < 0 {
			return nil, false
		}
		name := []string{"x", "abc", "abcde", "ёжик", "long name"}[c.N%5]
		insert(i, token{Kind: 's', Name: "grammeme", Attrs: [][2]string{{"parent", ""}}}, token{Kind: 's', Name: "name"},
			token{Kind: 't', Text: name}, token{Kind: 'e', Name: "name"}, token{Kind: 'e', Name: "grammeme"})
	case 11:
		return []byte([]string{"", " ", "\n\n", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\"?>\n<!-- nothing -->\n", "<!DOCTYPE dictionary>", "<?xml", "<", "<!--"}[c.N%9]), true
	case 12:
		name := []string{"dictionary", "lemma", "grammeme", "g", "lemmata"}[c.N%5]
		i := pick(func(t token) bool {
			return inside(t) && t.Kind == 'e' && strings.Count(t.Path, ".") >= 2 && !strings.HasSuffix(t.Path, ".lemma") && name != "g" ||
				t.Kind == 'e' && (t.Name == "lemma" || t.Name == "grammeme" || t.Name == "name")
		})
		if i < 0 {
			return nil, false
		}
		insert(i, token{Kind: 'o', Text: "<" + name + " v=\"NOUN\" parent=\"\" id=\"1\" rev=\"1\">"}, token{Kind: 'o', Text: "</" + name + ">"})
	case 13:
		i := pick(func(t token) bool { return t.Kind == 's' && len(t.Attrs) > 0 })
		if i < 0 {
			return nil, false
		}
		text := s.write(tokens[:i])
		rest := (&style{}).write(tokens[i:])
		q := bytes.IndexByte(rest, '"')
		cut := append(append([]byte(nil), rest[:q]...), rest[q+1:]...)
		return append(text, cut...), true
	case 14:
		type at struct{ token, attr int }
		var where []at
		for i, t := range tokens {
			for j, a := range t.Attrs {
				if t.Kind == 's' && (t.Name == "lemma" && (a[0] == "id" || a[0] == "rev") || t.Name == "dictionary" && (a[0] == "version" || a[0] == "revision")) {
					where = append(where, at{i, j})
				}
			}
		}
		if len(where) == 0 {
			return nil, false
		}
		w := where[c.At%len(where)]
		attrs := append([][2]string(nil), tokens[w.token].Attrs...)
		attrs[w.attr][1] = []string{"", "x", "1x", "x1", "-", "1,5", "²", "one", "1 2", "--1", "1;", "№1"}[c.N%12]
		tokens[w.token].Attrs = attrs
	}
	return s.write(tokens), true
}

// previous puts a compiled file of an earlier time in place.
func previous(dir string, kind int) []byte {
	var data []byte
	switch kind % 3 {
	case 0:
		return nil
	case 1:
		idx := dirty(7)
		var err error
		data, err = dump(idx)
		pbt.Works("writing an index", err)
	case 2:
		data = []byte("not an index at all, but not to be lost either")
	}
	writeFile(filepath.Join(dir, compiledName), data)
	return data
}

// mustNotCompile compiles what has to be refused.
func mustNotCompile(dir string, text []byte, missing bool, what string) error {
	from := filepath.Join(dir, unpackedName)
	if !missing {
		writeFile(from, text)
	}
	before := tree.Snapshot(dir)
	err := opencorpora.NewLoader(dir).ParseUpdate(from, filepath.Join(dir, compiledName))
	if err == nil {
		return pbt.Errf("%s: compiled without error\n%s", what, clip(text))
	}
	if d := tree.Diff(before, tree.Snapshot(dir)); len(d) > 0 {
		return pbt.Errf("%s: reported as %q, but %s", what, err, strings.Join(d, ", "))
	}
	return nil
}

func o02() pbt.Property {
	return pbt.Property{
		ID:    "O02",
		Level: "fault_enumeration",
		Rule:  "the damage applies, and the dictionary has a word with tags",
		Assumptions: []string{
			"the XML reader of the library used is a stand-in on encoding/xml, so text it accepts beyond the XML standard (such as after the root element) is not taken for damage",
		},
		Shards: 8,
		Facets: []pbt.Facet{
			pbt.Rapid("damage", 12000, 250000, func(t *rapid.T) broken {
				return broken{
					Dict: genDict(t, 4), Style: genStyle(t), Kind: rapid.IntRange(0, len(damageNames)-1).Draw(t, "damage"),
					At: rapid.IntRange(0, 60).Draw(t, "at"), N: rapid.IntRange(0, 11).Draw(t, "variant"), Prev: rapid.IntRange(0, 2).Draw(t, "previous"),
				}
			}, func(ctx *pbt.Ctx, c broken) error {
				text, ok := c.damage()
				if !ok {
					return nil
				}
				dir := ctx.Scratch()
				previous(dir, c.Prev)
				ctx.Label("%s", damageNames[c.Kind])
				ctx.NonTrivialIf(c.Dict.model().words() > 0)
				ctx.Exec(1)
				return mustNotCompile(dir, text, false, damageNames[c.Kind])
			}),
			pbt.Rapid("cut", 400, 8000, func(t *rapid.T) broken {
				return broken{Dict: genDict(t, 3), Style: genStyle(t), Prev: rapid.IntRange(0, 2).Draw(t, "previous")}
			}, func(ctx *pbt.Ctx, c broken) error {
				text := c.Dict.bytes(c.Style)
				end := bytes.LastIndex(text, []byte("</dictionary"))
				end += bytes.IndexByte(text[end:], '>') + 1
				dir := ctx.Scratch()
				previous(dir, c.Prev)
				ctx.NonTrivialIf(c.Dict.model().words() > 0)
				for _, n := range xio.Positions(end, 250) {
					if n >= end {
						continue
					}
					ctx.Exec(1)
					if err := mustNotCompile(dir, text[:n], false, fmt.Sprintf("cut after %d of %d bytes", n, len(text))); err != nil {
						return err
					}
				}
				// and uncut it compiles
				if err := compile(dir, text); err != nil {
					return pbt.Errf("not cut, compiling failed: %v", err)
				}
				return nil
			}),
			failingCalls(120, 4000, "compile"),
			everyFailingCall("compile"),
			pbt.Enum("missing", func(_ string, yield func(broken) bool) {
				for kind := 0; kind < 4; kind++ {
					for prev := 0; prev < 3; prev++ {
						if !yield(broken{Kind: kind, Prev: prev}) {
							return
						}
					}
				}
			}, func(ctx *pbt.Ctx, c broken) error {
				dir := ctx.Scratch()
				previous(dir, c.Prev)
				from := filepath.Join(dir, unpackedName)
				switch c.Kind {
				case 1:
					pbt.Must(os.Mkdir(from, 0o755))
				case 2:
					pbt.Must(os.Symlink("nowhere", from))
				case 3:
					pbt.Must(os.Symlink(from, from))
				}
				ctx.NonTrivial()
				ctx.Exec(1)
				return mustNotCompile(dir, nil, true, []string{"no dictionary", "a directory as dictionary", "a dangling link as dictionary", "a link to itself as dictionary"}[c.Kind])
			}),
			pbt.Enum("large", func(tier string, yield func(broken) bool) {
				for seed := 1; seed <= 4; seed++ {
					n := 400
					if tier == "thorough" {
						n = 4000
					}
					if !yield(broken{Dict: bulkDict(n, 100, seed), Prev: seed}) {
						return
					}
				}
			}, func(ctx *pbt.Ctx, c broken) error {
				text := c.Dict.bytes(nil)
				end := bytes.LastIndex(text, []byte("</dictionary>"))
				dir := ctx.Scratch()
				previous(dir, c.Prev)
				ctx.NonTrivial()
				for _, n := range xio.Positions(end, 40) {
					ctx.Exec(1)
					if err := mustNotCompile(dir, text[:n], false, fmt.Sprintf("cut after %d of %d bytes", n, len(text))); err != nil {
						return err
					}
				}
				return nil
			}),
		},
	}
}

// loaded is a compiled index under its name in dir.
func loaded(dir string) (*index.Index, error) { return opencorpora.NewLoader(dir).LoadIndex() }
