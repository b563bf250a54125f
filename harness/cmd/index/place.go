package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/tree"
	"github.com/amarin/gomorphy/verif/web"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- O07

// A place is where a loader is told to keep its files, and where that is, from the working directory.
var places = []struct{ given, means string }{
	{"", ".data/opencorpora"},
	{"rel", "rel"},
	{"rel/nested/deep", "rel/nested/deep"},
	{"ABS/abs/dir", "../abs/dir"},
	{"there/../other", "other"},
	{"./x/", "x"},
	{"../sibling", "../sibling"},
	{"with space/имя", "with space/имя"},
	{".", "."},
	{"there//double", "there/double"},
	{".data", ".data"},
	{"ABS/abs/dir/", "../abs/dir"},
	{" x ", " x "},
	{"~/x", "~/x"},
	{"$HOME/x", "$HOME/x"},
	{"X", "X"},
	{"%78", "%78"},
	{"rel\\x", "rel\\x"},
}

type visitOp struct {
	K    string
	Step updateStep
}

type visit struct {
	Place   int
	Created int // where the loader was created before it was told the place, -1: at the place
	Ready   bool
	Decoys  bool
	Ops     []visitOp
}

const given = "ABS" // replaced by the absolute scratch directory

// stillness tells, when asked later, a directory below top in which something was made, removed or renamed since: any but
// the data directory, and the one in which that has to be made.
func stillness(top, dir string) func() string {
	may := dir
	for {
		if _, err := os.Stat(may); err == nil {
			break
		}
		may = filepath.Dir(may)
	}
	old := time.Unix(issue0, 0)
	var dirs []string
	pbt.Must(filepath.Walk(top, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.IsDir() && p != may {
			dirs = append(dirs, p)
			err = os.Chtimes(p, old, old)
		}
		return err
	}))
	return func() string {
		for _, d := range dirs {
			if info, err := os.Stat(d); err == nil && !info.ModTime().Equal(old) {
				return d
			}
		}
		return ""
	}
}

func runVisit(ctx *pbt.Ctx, v visit) error {
	top := ctx.Scratch()
	cwd := filepath.Join(top, "cwd")
	pbt.Must(os.MkdirAll(filepath.Join(cwd, "there"), 0o755))
	place := places[v.Place]
	tmp := os.Getenv("TMPDIR")
	in := func(f func()) { // with no place for temporary files but those in sight
		tree.In(cwd, func() {
			pbt.Must(os.Setenv("TMPDIR", filepath.Join(top, "missing")))
			defer func() { pbt.Must(os.Setenv("TMPDIR", tmp)) }()
			f()
		})
	}
	path := func(p int) string { return strings.Replace(places[p].given, given, top, 1) }
	dir := filepath.Join(cwd, place.means)
	if v.Ready {
		pbt.Must(os.MkdirAll(dir, 0o755))
	}
	put := func(where string, data string) {
		p := filepath.Join(cwd, where)
		if strings.HasPrefix(where, "/") {
			p = where
		}
		pbt.Must(os.MkdirAll(filepath.Dir(p), 0o755))
		writeFile(p, []byte(data))
	}
	decoy := editionNo(40)
	if v.Decoys {
		// the files of other places, and other files of this one
		for i := range places {
			d := filepath.Join(cwd, places[i].means)
			if d == dir {
				continue
			}
			put(filepath.Join(d, archiveName), string(decoy.archive))
			put(filepath.Join(d, unpackedName), string(decoy.xml))
			put(filepath.Join(d, compiledName), string(decoy.dat))
		}
		if v.Ready {
			put(filepath.Join(dir, "notes.txt"), "mine")
			put(filepath.Join(dir, "sub", unpackedName), "mine")
			put(filepath.Join(dir, archiveName+".bak"), "mine")
			put(filepath.Join(dir, "dict.opcorpora.xml.bz2"), "mine")
		}
	}
	var loader *opencorpora.Loader
	in(func() {
		if v.Created < 0 {
			loader = opencorpora.NewLoader(path(v.Place))
		} else {
			loader = opencorpora.NewLoader(path(v.Created))
			loader.SetDataPath(path(v.Place))
		}
	})
	ctx.LabelIf(v.Created >= 0, "told later")
	ctx.Label("data directory %q", place.given)
	h := updateHistory{First: 4}
	s := &site{h: &h, top: top, dir: dir}
	s.update = func(force bool) (err error) {
		in(func() { err = loader.Update(force) })
		return err
	}
	rel, err := filepath.Rel(top, dir)
	pbt.Must(err)
	done := 0
	for i, o := range v.Ops {
		untouched := stillness(top, dir)
		trees := tree.Snapshot(top)
		st := s.state()
		s.issue += o.Step.New
		offered := s.edition(s.issue)
		web.Start().Script(o.Step.answers(offered, s.issue))
		var may []string
		var err error
		what := fmt.Sprintf("data directory %q: operation %d, %s", place.given, i+1, o.K)
		file := func(name string) string { return filepath.Join(rel, name) }
		parents := func() {
			for d := rel; d != "." && d != "/"; d = filepath.Dir(d) {
				may = append(may, d)
			}
		}
		ctx.Exec(1)
		switch o.K {
		case "update":
			err = s.update(o.Step.Force)
			may = append(may, file(archiveName), file(unpackedName), file(compiledName))
			parents()
			now := s.state()
			switch {
			case err == nil && !now.hasC:
				return pbt.Errf("%s: success, but no index in %s", what, place.means)
			case err != nil && (now.hasC != st.hasC || !bytes.Equal(now.c, st.c)):
				return pbt.Errf("%s: failed with %q, but the index in %s changed", what, err, place.means)
			case err == nil:
				done++
			}
		case "path":
			in(func() {
				var abs string
				abs, err = filepath.Abs(loader.DataPath())
				pbt.Must(err)
				if abs != dir {
					err = pbt.Errf("%s: data path is %s", what, loader.DataPath())
				}
			})
			if err != nil {
				return err
			}
		case "exists":
			in(func() {
				if got := loader.IsDownloadExists(); got != st.hasA {
					err = pbt.Errf("%s: download exists: %v", what, got)
				}
				if got := loader.IsUnpackedExists(); got != st.hasU {
					err = pbt.Errf("%s: unpacked exists: %v", what, got)
				}
			})
			if err != nil {
				return err
			}
		case "required":
			in(func() { _, err = loader.IsUpdateRequired() })
		case "download":
			var updated bool
			in(func() { updated, err = loader.DownloadUpdate() })
			may = append(may, file(archiveName))
			parents()
			now := s.state()
			if updated && err == nil && goodGet(o.Step.Get) && !bytes.Equal(now.a, offered.archive) {
				return pbt.Errf("%s: downloaded, but the archive in %s is %s", what, place.means, describe(now.a, now.hasA))
			}
			if (!updated || err != nil) && (now.hasA != st.hasA || !bytes.Equal(now.a, st.a)) {
				return pbt.Errf("%s: nothing downloaded (%v), but the archive was %s and is %s", what, err, describe(st.a, st.hasA), describe(now.a, now.hasA))
			}
			if err == nil && !now.hasA {
				return pbt.Errf("%s: no error, but there is no archive in %s", what, place.means)
			}
			if updated {
				done++
			}
		case "unpack":
			in(func() { err = loader.UnpackUpdate() })
			may = append(may, file(unpackedName))
			parents()
			now := s.state()
			if want := reference(st.a); st.hasA && want != nil {
				if err != nil {
					return pbt.Errf("%s: %v", what, err)
				}
				if !bytes.Equal(want, now.u) {
					return pbt.Errf("%s: no error, but the dictionary in %s is %s", what, place.means, describe(now.u, now.hasU))
				}
				done++
			} else if err == nil {
				return pbt.Errf("%s: no error without a good archive in %s", what, place.means)
			}
		case "compile":
			in(func() {
				err = loader.ParseUpdate(filepath.Join(loader.DataPath(), unpackedName), filepath.Join(loader.DataPath(), compiledName))
			})
			may = append(may, file(compiledName))
			if !st.hasU && err == nil {
				return pbt.Errf("%s: no error without a dictionary in %s", what, place.means)
			}
			if now := s.state(); err == nil && !now.hasC {
				return pbt.Errf("%s: no error, but no index in %s", what, place.means)
			}
		case "load":
			in(func() {
				idx, lerr := loader.LoadIndex()
				if (lerr == nil) != st.hasC {
					err = pbt.Errf("%s: loaded %v, compiled index in %s: %s", what, lerr, place.means, describe(st.c, st.hasC))
					return
				}
				if lerr == nil {
					data, derr := dump(idx)
					pbt.Works("writing a loaded index", derr)
					if !bytes.Equal(data, st.c) {
						err = pbt.Errf("%s: loaded another index than that in %s", what, place.means)
					}
					done++
				}
			})
			if err != nil {
				return err
			}
		case "save":
			if _, serr := os.Stat(dir); serr != nil {
				continue // no promise to make a directory here
			}
			in(func() { err = loader.SaveIndex(dirty(i), filepath.Join(loader.DataPath(), compiledName)) })
			may = append(may, file(compiledName))
			if err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
		}
		s.age(st)
		if d := tree.Diff(trees, tree.Snapshot(top), may...); len(d) > 0 {
			return pbt.Errf("%s: %s", what, strings.Join(d, ", "))
		}
		if d := untouched(); d != "" {
			return pbt.Errf("%s: something was made, and removed again, in %s", what, d)
		}
	}
	ctx.NonTrivialIf(len(v.Ops) >= 2 && done > 0 && place.given != ".")
	return nil
}

func o07() pbt.Property {
	return pbt.Property{
		ID:          "O07",
		Rule:        "at least 2 operations with a successful one among them, in a data directory other than the working directory",
		Assumptions: []string{"the server is a scripted HTTP proxy on the loopback interface", "the default directory is .data/opencorpora under the working directory, which stays the same"},
		Shards:      8,
		Facets: []pbt.Facet{
			pbt.Rapid("visit", 1600, 30000, func(t *rapid.T) visit {
				return visit{
					Place: rapid.IntRange(0, len(places)-1).Draw(t, "place"), Created: rapid.SampledFrom([]int{-1, -1, -1, 0, 1, 3}).Draw(t, "created at"),
					Ready: rapid.Bool().Draw(t, "ready"), Decoys: rapid.Bool().Draw(t, "decoys"),
					Ops: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) visitOp {
						return visitOp{rapid.SampledFrom([]string{"update", "update", "required", "download", "unpack", "compile", "load", "exists", "path", "save"}).Draw(t, "op"), genStep(t)}
					}), 1, 6).Draw(t, "ops"),
				}
			}, runVisit),
			pbt.Enum("places", func(_ string, yield func(visit) bool) {
				for p := range places {
					for created := -1; created < 2; created++ {
						for decoys := 0; decoys < 2; decoys++ {
							for fails := 0; fails < 2; fails++ {
								v := visit{Place: p, Created: created, Decoys: decoys == 1, Ready: fails == 1, Ops: []visitOp{
									{"path", updateStep{}}, {"download", updateStep{Get: fails * getCutBody, Cut: 500}}, {"exists", updateStep{}}, {"unpack", updateStep{}}, {"exists", updateStep{}},
									{"compile", updateStep{}}, {"load", updateStep{}}, {"update", updateStep{New: 1, Get: fails * getTruncated}}, {"load", updateStep{}}, {"update", updateStep{Force: true}}, {"save", updateStep{}}, {"load", updateStep{}},
								}}
								if !yield(v) {
									return
								}
							}
						}
					}
				}
			}, runVisit),
		},
	}
}

// ---------------------------------------------------------------- O08

type lemmaCase struct {
	Forms  []string // base forms, "\x00" for an absent entry
	Word   string
	Tags   []string
	Parent string
	Name   string
	Attrs  [][2]string
	Int    string
	Absent []int // places of absent categories of a form
	Same   bool  // equal entries one after another are one and the same
}

func genLemmaCase(t *rapid.T) lemmaCase {
	word := rapid.SampledFrom([]string{"", "а", "б", "аб", "А", "ab", "ab ", "е", "ё", "\x00", "яяяяяяя"})
	attr := rapid.Custom(func(t *rapid.T) [2]string {
		return [2]string{rapid.SampledFrom([]string{"v", "t", "id", "V", "", "parent", "v "}).Draw(t, "attr"),
			rapid.SampledFrom([]string{"", "1", "-5", "+7", "007", "x", "1x", " 1", "1 ", "99999999999999999999", "9223372036854775807", "-9223372036854775808", "0x10", "1_000", "1.0", "NOUN", "٣", "-"}).Draw(t, "value")}
	})
	tag := rapid.OneOf(rapid.SampledFrom([]string{"", "NOUN", "VERB", "noun", "none", "a,b", "яяяя"}), rapid.String())
	return lemmaCase{
		Forms: rapid.SliceOfN(word, 0, 12).Draw(t, "forms"), Word: word.Draw(t, "word"),
		Tags: rapid.SliceOfN(tag, 0, 6).Draw(t, "tags"), Parent: tag.Draw(t, "parent"), Name: tag.Draw(t, "name"),
		Attrs: rapid.SliceOfN(attr, 0, 6).Draw(t, "attributes"), Int: attr.Draw(t, "asked")[0],
		Absent: rapid.SliceOfN(rapid.IntRange(0, 6), 0, 2).Draw(t, "absent"),
		Same:   rapid.Bool().Draw(t, "same"),
	}
}

func (c lemmaCase) list() opencorpora.LemmaList {
	var l opencorpora.LemmaList
	for i, f := range c.Forms {
		if f == "\x00" {
			l = append(l, nil)
			continue
		}
		if c.Same && i > 0 && c.Forms[i-1] == f {
			l = append(l, l[i-1])
			continue
		}
		lemma := &opencorpora.Lemma{IdAttr: i + 1, RevAttr: -i, L: opencorpora.WordForm{Form: f, G: c.cats()}}
		for j := 0; j < i%3; j++ {
			lemma.F = append(lemma.F, &opencorpora.WordForm{Form: f + strconv.Itoa(j), G: c.cats()})
		}
		l = append(l, lemma)
	}
	return l
}

func (c lemmaCase) cats() opencorpora.CategoryList {
	var l opencorpora.CategoryList
	for i, t := range c.Tags {
		if c.Same && i > 0 && c.Tags[i-1] == t {
			l = append(l, l[i-1])
			continue
		}
		l = append(l, &opencorpora.Category{VAttr: dag.TagName(t)})
	}
	return l
}

func sameNames(got []dag.TagName, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if string(got[i]) != want[i] {
			return false
		}
	}
	return true
}

// inOrder tells if the parts follow one another in a text.
func inOrder(text string, parts ...string) bool {
	for _, p := range parts {
		i := strings.Index(text, p)
		if i < 0 {
			return false
		}
		text = text[i+len(p):]
	}
	return true
}

// decimal is what a text says as a decimal integer.
func decimal(s string) (int64, bool) {
	digits := strings.TrimPrefix(strings.TrimPrefix(s, "+"), "-")
	if len(digits) == 0 || len(s)-len(digits) > 1 {
		return 0, false
	}
	var n, sign int64 = 0, -1
	if s[0] != '-' {
		sign = 1
	}
	for _, c := range []byte(digits) {
		if c < '0' || c > '9' {
			return 0, false
		}
		d := int64(c-'0') * sign
		if sign > 0 && n > (1<<63-1-d)/10 || sign < 0 && n < (-1<<63-d)/10 {
			return 0, false
		}
		n = n*10 + d
	}
	return n, true
}

// searchChanged asks again after the list changed in place, as its owner may do.
func (c lemmaCase) searchChanged(list opencorpora.LemmaList) error {
	if len(list) == 0 {
		return nil
	}
	all := opencorpora.Lemmata{Items: list}
	kept := list.Search(c.Word)
	was := fmt.Sprint(kept)
	for at := range list {
		if list[at] == nil {
			continue
		}
		n := 0
		old := *list[at]
		list[at].L.Form += "!" // in place
		for _, l := range list {
			if l != nil && l.L.Form == c.Word {
				n++
			}
		}
		if got := list.Search(c.Word); len(got) != n {
			return pbt.Errf("after lemma %d was renamed: %d lemmas of %q, want %d", at, len(got), c.Word, n)
		}
		if got := all.Search(old.L.Form + "!"); len(got) == 0 {
			return pbt.Errf("lemma %d, renamed %q, is not found", at, old.L.Form+"!")
		}
		*list[at] = old
		if at > 3 {
			break
		}
	}
	list[0] = &opencorpora.Lemma{IdAttr: -1, L: opencorpora.WordForm{Form: c.Word}} // another one in its place
	if got := list.Search(c.Word); len(got) == 0 || got[0].IdAttr != -1 {
		return pbt.Errf("after lemma 0 was replaced by one of %q: %v", c.Word, got)
	}
	if now := fmt.Sprint(kept); now != was {
		return pbt.Errf("what was found earlier, %s, is now %s", was, now)
	}
	for i := range kept {
		kept[i] = opencorpora.Lemma{}
	}
	if got := list.Search(c.Word); len(got) == 0 || got[0].IdAttr != -1 {
		return pbt.Errf("after the lemmata found earlier were written over: %v", got)
	}
	return nil
}

func runLemmas(ctx *pbt.Ctx, c lemmaCase) error {
	list, copied := c.list(), c.list()
	var want []*opencorpora.Lemma
	for i, f := range c.Forms {
		if f == c.Word && f != "\x00" {
			want = append(want, copied[i])
		}
	}
	ctx.NonTrivialIf(len(want) > 0 && len(want) < len(list))
	ctx.LabelIf(len(want) > 1, "several lemmas")
	ctx.Exec(2)
	for i, got := range [][]opencorpora.Lemma{list.Search(c.Word), opencorpora.Lemmata{Items: list}.Search(c.Word)} {
		if len(got) != len(want) {
			return pbt.Errf("search %d for %q: %d lemmas, want %d", i, c.Word, len(got), len(want))
		}
		for j := range got {
			if !reflect.DeepEqual(got[j], *want[j]) {
				return pbt.Errf("search %d for %q: lemma %d is %v, want %v", i, c.Word, j, got[j], *want[j])
			}
		}
	}
	if !reflect.DeepEqual(list, copied) {
		return pbt.Errf("searching changed the list")
	}
	if err := c.searchChanged(list); err != nil {
		return err
	}
	if list = c.list(); !reflect.DeepEqual(list, copied) {
		return pbt.Errf("what a search returned is not a copy: altered, it alters a list made anew")
	}
	cats := c.cats()
	form := opencorpora.WordForm{Form: c.Word, G: cats}
	if got := cats.GrammemeNames(); !sameNames(got, c.Tags) {
		return pbt.Errf("names of %q: %q", c.Tags, got)
	}
	if got := form.GetTagsFromSet(); !sameNames(got, c.Tags) {
		return pbt.Errf("tags of a form with %q: %q", c.Tags, got)
	}
	kept := [2][]dag.TagName{cats.GrammemeNames(), form.GetTagsFromSet()}
	other := opencorpora.CategoryList{{VAttr: "OTHR"}, {VAttr: "MORE"}}
	_, _ = other.GrammemeNames(), opencorpora.WordForm{G: other}.GetTagsFromSet()
	for i, names := range kept {
		if !sameNames(names, c.Tags) {
			return pbt.Errf("names of %q (%d) are %q after others were asked for", c.Tags, i, names)
		}
		for j := range names {
			names[j] = "JUNK"
		}
		_ = append(names, "JUNK")
	}
	if got, tags := cats.GrammemeNames(), form.GetTagsFromSet(); !sameNames(got, c.Tags) || !sameNames(tags, c.Tags) {
		return pbt.Errf("names of %q after the ones returned earlier were written over: %q, %q", c.Tags, got, tags)
	}
	gaps := append(opencorpora.CategoryList(nil), cats...)
	for _, at := range c.Absent {
		at %= len(gaps) + 1
		gaps = append(gaps[:at:at], append(opencorpora.CategoryList{nil}, gaps[at:]...)...)
	}
	ctx.LabelIf(len(gaps) > len(cats), "absent categories")
	if got := (opencorpora.WordForm{Form: c.Word, G: gaps}).GetTagsFromSet(); !sameNames(got, c.Tags) {
		return pbt.Errf("tags of a form with %q and absent ones at %d: %q", c.Tags, c.Absent, got)
	}
	if text := form.String(); !inOrder(text, append([]string{c.Word}, c.Tags...)...) {
		return pbt.Errf("text of form %q with %q: %q", c.Word, c.Tags, text)
	}
	if text := cats.String(); !inOrder(text, c.Tags...) {
		return pbt.Errf("text of categories %q: %q", c.Tags, text)
	}
	for _, l := range list {
		if l == nil {
			continue
		}
		parts := []string{strconv.Itoa(l.IdAttr), l.L.Form}
		for _, f := range l.F {
			parts = append(parts, f.Form)
		}
		if text := l.String(); !inOrder(text, parts...) {
			return pbt.Errf("text of lemma %v: %q", parts, text)
		}
	}
	if !reflect.DeepEqual(list, copied) || !reflect.DeepEqual(cats, c.cats()) {
		return pbt.Errf("asking for names or texts changed the dictionary")
	}
	g := opencorpora.Grammeme{ParentAttr: dag.TagName(c.Parent), Name: dag.TagName(c.Name), Alias: c.Word, Description: c.Int}
	tag := g.Tag()
	parent := c.Parent
	if parent == "" {
		parent = marker
	}
	if string(tag.Name) != c.Name || string(tag.Parent) != parent {
		return pbt.Errf("tag of grammeme %q with parent %q: %q with parent %q", c.Name, c.Parent, tag.Name, tag.Parent)
	}
	if text := g.String(); !inOrder(text, c.Name, c.Parent, c.Word, c.Int) {
		return pbt.Errf("text of grammeme %q, %q, %q, %q: %q", c.Name, c.Parent, c.Word, c.Int, text)
	}
	all := opencorpora.Grammemes{}
	var parts []string
	for _, n := range c.Tags {
		all.Grammeme = append(all.Grammeme, &opencorpora.Grammeme{Name: dag.TagName(n), ParentAttr: dag.TagName(c.Parent)})
		parts = append(parts, n, c.Parent)
	}
	if text := all.String(); !inOrder(text, parts...) {
		return pbt.Errf("text of grammemes %q: %q", parts, text)
	}

	attrs := opencorpora.Attr{}
	found, value := false, ""
	for _, a := range c.Attrs {
		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: a[0]}, Value: a[1]})
		if a[0] == c.Int && !found {
			found, value = true, a[1]
		}
	}
	got, err := attrs.GetString(c.Int)
	if (err == nil) != found || got != value {
		return pbt.Errf("attribute %q of %q: %q, %v", c.Int, c.Attrs, got, err)
	}
	n, isNumber := decimal(value)
	num, err := attrs.GetInt(c.Int)
	ctx.LabelIf(found && isNumber, "a number")
	ctx.LabelIf(found && !isNumber, "not a number")
	switch {
	case found && isNumber && (err != nil || int64(num) != n):
		return pbt.Errf("attribute %q of %q as a number: %d, %v", c.Int, c.Attrs, num, err)
	case !(found && isNumber) && (err == nil || num != 0):
		return pbt.Errf("attribute %q of %q as a number: %d without error", c.Int, c.Attrs, num)
	}
	return nil
}

func o08() pbt.Property {
	return pbt.Property{
		ID:          "O08",
		Rule:        "a list in which some lemmas are of the word asked for and others are not",
		Assumptions: []string{"lists have no absent entries where the code has no provision for them: they are in lemma lists searched and categories of forms"},
		Facets: []pbt.Facet{
			pbt.Rapid("queries", 15000, 600000, genLemmaCase, runLemmas),
			pbt.Enum("many", func(_ string, yield func(lemmaCase) bool) {
				for _, n := range []int{15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 5000} {
					for same := 0; same < 2; same++ {
						c := lemmaCase{Word: "а", Parent: "POST", Name: "NOUN", Same: same == 1}
						for i := 0; i < n; i++ {
							c.Forms = append(c.Forms, "а")
							if len(c.Tags) < 1100 {
								c.Tags = append(c.Tags, []string{"NOUN", "NOUN", "sing"}[i%3])
							}
						}
						c.Forms = append(c.Forms, "б", "\x00", "а")
						if n > 300 {
							c.Tags = c.Tags[:7]
						}
						if !yield(c) {
							return
						}
					}
				}
			}, runLemmas),
		},
	}
}
