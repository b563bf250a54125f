package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/amarin/gomorphy/pkg/opencorpora"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/trace"
	"github.com/amarin/gomorphy/verif/tree"
	"github.com/amarin/gomorphy/verif/web"

	"pgregory.net/rapid"
)

// edition is one issue of the dictionary.
type edition struct {
	no      int
	xml     []byte
	archive []byte
	dat     []byte // compiled
	m       *model
}

var editions = map[int]*edition{}

func editionNo(no int) *edition {
	if e, ok := editions[no]; ok {
		return e
	}
	size := []int{1, 12, 120, 900}[no%4]
	spec := bulkDict(size, 31+no%7, no)
	spec.Lemmas = append(spec.Lemmas, lemmaSpec{L: "издание", G: []int{no}, F: []formSpec{{"издание" + fmt.Sprint(no), []int{1}}}})
	e := &edition{no: no, xml: spec.bytes(nil), m: spec.model()}
	e.archive = pack(e.xml, 1+no%9)
	dir, err := os.MkdirTemp("", "edition")
	pbt.Must(err)
	defer func() { _ = os.RemoveAll(dir) }()
	if err = compile(dir, e.xml); err == nil {
		e.dat, _ = readIf(filepath.Join(dir, compiledName))
	}
	editions[no] = e
	return e
}

// isCompiledOf tells if a compiled index holds an edition.
func (e *edition) isCompiledOf(data []byte) error {
	if e.dat != nil && bytes.Equal(data, e.dat) {
		return nil
	}
	dir, err := os.MkdirTemp("", "compare")
	pbt.Must(err)
	defer func() { _ = os.RemoveAll(dir) }()
	writeFile(filepath.Join(dir, compiledName), data)
	idx, err := loaded(dir)
	if err != nil {
		return err
	}
	return e.m.sameContent(idx, 500)
}

// What a server may answer.
const (
	headOK = iota
	headNoDate
	headBadDate
	head404
	head500
	head304
	headDrop
	headReset
	headGarbage
	headCut
	headOnce  // fails when asked again
	headLater // fails the first time
	headWaver // something newer at first, then not
	headBack  // the other way round
	heads
)

const (
	getOK = iota
	getChunked
	getToEnd
	getNoDate
	getBadDate
	get404
	get500
	get206
	get204
	getCutBody
	getCutChunk
	getResetBody
	getDrop
	getReset
	getGarbage
	getCutHead
	getPage      // a page instead of an archive
	getTruncated // a truncated archive, whole as answers go
	getFlipped
	getBroken // an archive of a broken dictionary
	getEmpty
	getNothing // an archive of nothing
	getCutXML  // an archive of half a dictionary
	getOther   // an archive of something else
	gets
)

var headNames = []string{"date", "no date", "unreadable date", "404", "500", "304", "dropped", "reset", "garbage", "cut", "answered once", "answered later", "newer, then not", "not newer, then newer"}
var getNames = []string{"archive", "archive in chunks", "archive to the end", "archive without date", "archive with an unreadable date", "404", "500", "206", "204", "cut body", "cut chunk", "reset body", "dropped", "reset", "garbage", "cut header",
	"a page", "truncated archive", "damaged archive", "broken dictionary", "empty", "archive of nothing", "half a dictionary", "archive of something else"}

func goodGet(g int) bool { return g <= getBadDate }

var damagedArchives = map[[3]int][]byte{}

// bad makes the body of an answer that is no good.
func (e *edition) bad(get, cut int) []byte {
	k := [3]int{e.no, get, cut % 1000}
	if b, ok := damagedArchives[k]; ok {
		return b
	}
	var b []byte
	switch get {
	case getPage:
		b = []byte("<html><body>Technical works</body></html>")
	case getTruncated:
		b = e.archive[:4+(len(e.archive)-5)*(cut%1000)/1000]
	case getFlipped:
		b = append([]byte(nil), e.archive...)
		for i := 0; ; i++ { // until it is damage
			b[(10+cut+i)%len(b)] ^= 4
			if reference(b) == nil {
				break
			}
		}
	case getBroken:
		where := []string{"</lemmata>", "<lemmata>", "</dictionary>"}[cut%3]
		b = pack(bytes.Replace(e.xml, []byte(where), []byte("<unknown/>"+where), 1), 9)
	case getNothing:
		b = pack(nil, 9)
	case getCutXML:
		b = pack(e.xml[:len(e.xml)*(cut%1000)/1000], 9)
	case getOther:
		b = pack([]byte("not a dictionary at all"), 9)
	}
	if len(damagedArchives) > 500 {
		damagedArchives = map[[3]int][]byte{}
	}
	damagedArchives[k] = b
	return b
}

const issue0 = 1500000000

// issued is when an edition was put on the server.
func issued(v int) time.Time { return time.Unix(issue0+int64(v)*3600, 0) }

// answers is the script of the server offering issue v.
func (u *updateStep) answers(e *edition, v int) func(string, int) web.Answer {
	var body []byte
	if u.Get > getCutHead {
		body = e.bad(u.Get, u.Cut)
	}
	return func(method string, n int) web.Answer {
		date := issued(v).UTC().Format("Mon, 02 Jan 2006 15:04:05") + " GMT"
		a := web.Answer{Status: 200, LM: date, Body: e.archive, Moved: u.Moved}
		if method == "HEAD" {
			switch u.Head {
			case headNoDate:
				a.LM = ""
			case headBadDate:
				a.LM = unreadable[u.Cut%len(unreadable)]
			case head404:
				a.Status = 404
			case head500:
				a.Status = 500
			case head304:
				a.Status = 304
			case headDrop:
				a.Kind = web.Drop
			case headReset:
				a.Kind = web.Reset
			case headGarbage:
				a.Kind = web.Garbage
			case headCut:
				a.Kind = web.CutHead
			case headOnce:
				if n > 0 {
					a.Status = 503
				}
			case headLater:
				if n == 0 {
					a.Status = 503
				}
			case headWaver, headBack:
				a.LM = "Mon, 02 Jan 2012 15:04:05 GMT" // before all issues
				if (n == 0) == (u.Head == headWaver) {
					a.LM = "Tue, 02 Jan 2035 15:04:05 GMT"
				}
			}
			return a
		}
		a.Cut = len(e.archive) * (u.Cut % 1000) / 1000
		switch u.Get {
		case getOK:
		case getChunked:
			a.Kind = web.Chunked
		case getToEnd:
			a.Kind = web.ToEnd
		case getNoDate:
			a.LM = ""
		case getBadDate:
			a.LM = unreadable[u.Cut%len(unreadable)]
		case get404:
			a.Status, a.Body = 404, []byte("<html>no such page</html>")
		case get500:
			a.Status = 500
		case get206:
			a.Status, a.Body = 206, e.archive[:a.Cut]
		case get204:
			a.Status = 204
		case getCutBody:
			a.Kind = web.CutBody
		case getCutChunk:
			a.Kind = web.CutChunk
		case getResetBody:
			a.Kind = web.ResetBody
		case getDrop:
			a.Kind = web.Drop
		case getReset:
			a.Kind = web.Reset
		case getGarbage:
			a.Kind = web.Garbage
		case getCutHead:
			a.Kind = web.CutHead
		default:
			a.Body = body
		}
		return a
	}
}

// updateStep is one update, and what precedes it.
type updateStep struct {
	Force  bool
	New    int // issues the server has gone forward
	Head   int
	Get    int
	Cut    int // where bodies are cut or damaged
	Delete int // files the user removes before: 1 archive, 2 dictionary, 4 index
	Disk   int // the disk fills up, in thousandths of the longest file; 0: it does not
	Moved  int `json:",omitempty"` // status of a redirection before each answer
}

type updateHistory struct {
	First int // number of the first edition
	Apart int `json:",omitempty"` // how far the numbers of editions are apart, beyond 1
	Steps []updateStep

	// Early: all issues are dated before the files made here, as when one is dated long before it is put on the server.
	Early bool `json:",omitempty"`
}

// site is a data directory and the server it is updated from.
type site struct {
	h      *updateHistory
	top    string // everything below is watched
	dir    string
	issue  int
	aged   int
	update func(force bool) error
}

func (s *site) edition(v int) *edition { return editionNo(s.h.First + v*(1+s.h.Apart)) }

func (s *site) path(name string) string { return filepath.Join(s.dir, name) }

// state is what is in the data directory.
type state struct {
	a, u, c          []byte
	hasA, hasU, hasC bool
	mtime            time.Time // of the archive
	uTime, cTime     time.Time
}

func (s *site) state() (st state) {
	st.a, st.hasA = readIf(s.path(archiveName))
	st.u, st.hasU = readIf(s.path(unpackedName))
	st.c, st.hasC = readIf(s.path(compiledName))
	for name, t := range map[string]*time.Time{archiveName: &st.mtime, unpackedName: &st.uTime, compiledName: &st.cTime} {
		if info, err := os.Stat(s.path(name)); err == nil {
			*t = info.ModTime()
		}
	}
	return st
}

// issueOf is the issue an archive is of, -1 if none.
func (s *site) issueOf(archive []byte) int {
	for v := s.issue; v >= 0; v-- {
		if bytes.Equal(s.edition(v).archive, archive) {
			return v
		}
	}
	return -1
}

// age makes files made since, with the time they were made at, look as if they came half an hour after the issue, in
// the order they are made.
func (s *site) age(before state) {
	if s.h.Early {
		return
	}
	now := s.state()
	s.aged++
	t := issued(s.issue).Add(30*time.Minute + time.Duration(s.aged)*10*time.Second)
	touch := func(name string, since time.Duration) {
		info, err := os.Stat(s.path(name))
		pbt.Must(err)
		if time.Since(info.ModTime()) < time.Hour {
			pbt.Must(os.Chtimes(s.path(name), t.Add(since), t.Add(since)))
		}
	}
	if now.hasA && (!before.hasA || !bytes.Equal(before.a, now.a) || !before.mtime.Equal(now.mtime)) {
		touch(archiveName, 0)
	}
	if now.hasU && (!before.hasU || !bytes.Equal(before.u, now.u) || !before.uTime.Equal(now.uTime)) {
		touch(unpackedName, time.Second)
	}
	if now.hasC && (!before.hasC || !bytes.Equal(before.c, now.c) || !before.cTime.Equal(now.cTime)) {
		touch(compiledName, 2*time.Second)
	}
}

// step does one update and judges it.
func (s *site) step(ctx *pbt.Ctx, u updateStep) (err error) {
	s.issue += u.New
	for i, name := range []string{archiveName, unpackedName, compiledName} {
		if u.Delete>>i&1 != 0 {
			pbt.Must(os.RemoveAll(s.path(name)))
		}
	}
	offered := s.edition(s.issue)
	before := s.state()
	trees := tree.Snapshot(s.top)
	server := web.Start()
	server.Script(u.answers(offered, s.issue))

	// what is going to happen
	const (
		yes = iota
		no
		failed
		unknown
	)
	need := yes
	if before.hasA {
		switch u.Head {
		case headOK:
			if !issued(s.issue).After(before.mtime) {
				need = no
			}
		case headNoDate:
			need = no
		case headBadDate:
		case headOnce, headLater, headWaver, headBack:
			need = unknown
		default:
			need = failed
		}
	}

	if u.Disk > 0 {
		longest := max(len(offered.xml), len(offered.archive), len(offered.dat), 1)
		withDisk(longest*u.Disk/1000, func() { err = s.update(u.Force) })
		need = unknown
	} else {
		err = s.update(u.Force)
	}
	ctx.Exec(1)

	after := s.state()
	s.age(before)

	what := fmt.Sprintf("forced %v, server: %s then %s", u.Force, headNames[u.Head], getNames[u.Get])
	if u.Disk > 0 {
		what += fmt.Sprintf(", disk full after %d/1000", u.Disk)
	}
	rel, _ := filepath.Rel(s.top, s.dir)
	allowed := []string{filepath.Join(rel, archiveName), filepath.Join(rel, unpackedName), filepath.Join(rel, compiledName)}
	if !before.hasA && !before.hasU && !before.hasC { // directories may have to be made
		for d := rel; d != "." && d != "/"; d = filepath.Dir(d) {
			allowed = append(allowed, d)
		}
	}
	if d := tree.Diff(trees, tree.Snapshot(s.top), allowed...); len(d) > 0 {
		return pbt.Errf("%s: %s", what, strings.Join(d, ", "))
	}

	// whatever happened
	lastKnown := -1
	if before.hasA {
		lastKnown = s.issueOf(before.a)
	}
	is := func(v int) error {
		if !after.hasC {
			return pbt.Errf("there is no compiled index")
		}
		return s.edition(v).isCompiledOf(after.c)
	}
	if err != nil {
		ctx.Label("failed")
		if before.hasC != after.hasC || !bytes.Equal(before.c, after.c) {
			return pbt.Errf("%s: failed with %q, but the compiled index changed from %s to %s", what, err, describe(before.c, before.hasC), describe(after.c, after.hasC))
		}
	} else {
		ctx.Label("succeeded")
		fits := is(s.issue)
		for v := s.issue - 1; v >= 0 && fits != nil; v-- {
			if is(v) == nil {
				fits = nil
			}
		}
		if fits != nil {
			return pbt.Errf("%s: reported success, but the compiled index holds no dictionary ever offered: %v", what, fits)
		}
	}
	failure := func(format string, args ...any) error {
		return pbt.Errf("%s, archive %s (issue %d of %d), dictionary %s, index %s: %s; requests %v", what, describe(before.a, before.hasA), lastKnown, s.issue,
			describe(before.u, before.hasU), describe(before.c, before.hasC), fmt.Sprintf(format, args...), server.Requests())
	}
	last := func(why string) error { // success with the dictionary at hand
		if err != nil {
			return failure("%s, but: %v", why, err)
		}
		if lastKnown >= 0 {
			if e := is(lastKnown); e != nil {
				return failure("%s, but the index is not that of the dictionary at hand: %v", why, e)
			}
		}
		return nil
	}
	gets := server.Count("GET")
	if err != nil && gets == 0 && lastKnown >= 0 && !bytes.Equal(before.a, after.a) {
		return failure("failed with %q without a download, and the archive, good before, is now %s", err, describe(after.a, after.hasA))
	}
	switch {
	case need == unknown:
		return nil
	case need == yes && goodGet(u.Get):
		if err != nil {
			return failure("the server had the dictionary: %v", err)
		}
		if e := is(s.issue); e != nil {
			return failure("the index does not hold the dictionary offered: %v", e)
		}
		if !bytes.Equal(after.a, offered.archive) {
			return failure("the archive kept is not the one offered")
		}
		return nil
	case need == yes:
		if err == nil {
			if !u.Force || lastKnown < 0 || is(lastKnown) != nil {
				return failure("success though the dictionary could not be fetched")
			}
		}
		return nil
	case gets > 0:
		return failure("downloaded though nothing newer was known")
	case need == no && !u.Force && before.hasC:
		if err != nil {
			return failure("nothing newer, but: %v", err)
		}
		if !bytes.Equal(before.c, after.c) || !bytes.Equal(before.a, after.a) || !bytes.Equal(before.u, after.u) {
			return failure("nothing newer, but files were changed")
		}
		return nil
	case lastKnown < 0: // nothing good at hand
		return nil
	case need == no:
		return last("nothing newer")
	case u.Force:
		return last("the server can not be asked, recompiling was forced")
	default:
		if err == nil {
			return failure("success though the server could not be asked")
		}
		return nil
	}
}

// recovers does the first update after all failures.
func (s *site) recovers(ctx *pbt.Ctx, force bool) error {
	server := s.edition(s.issue)
	if err := s.step(ctx, updateStep{Force: force}); err != nil {
		return pbt.Errf("after the failures: %v", err)
	}
	st := s.state()
	if !st.hasC {
		return pbt.Errf("after the failures: success without a compiled index")
	}
	if err := server.isCompiledOf(st.c); err != nil {
		return pbt.Errf("after the failures: success, but the index is not that of the dictionary on the server: %v", err)
	}
	return nil
}

func genStep(t *rapid.T) updateStep {
	u := updateStep{
		Force: rapid.Bool().Draw(t, "force"),
		New:   rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "new"),
		Cut:   rapid.IntRange(0, 999).Draw(t, "cut"),
	}
	if rapid.IntRange(0, 1).Draw(t, "head fails") == 1 {
		u.Head = rapid.IntRange(0, heads-1).Draw(t, "head")
	}
	if rapid.IntRange(0, 1).Draw(t, "get fails") == 1 {
		u.Get = rapid.IntRange(0, gets-1).Draw(t, "get")
	}
	if rapid.IntRange(0, 5).Draw(t, "moved") == 5 {
		u.Moved = rapid.SampledFrom([]int{301, 302, 303, 307, 308}).Draw(t, "redirection")
	}
	if rapid.IntRange(0, 3).Draw(t, "deletes") == 3 {
		u.Delete = rapid.IntRange(1, 7).Draw(t, "delete")
	}
	if rapid.IntRange(0, 5).Draw(t, "full") == 5 {
		u.Disk = rapid.SampledFrom([]int{1, 10, 50, 100, 300, 700, 990, 1000}).Draw(t, "disk")
	}
	return u
}

func genUpdates(max int) func(*rapid.T) updateHistory {
	return func(t *rapid.T) updateHistory {
		h := updateHistory{
			First: rapid.SampledFrom([]int{1, 2, 4, 5, 8, 3}).Draw(t, "first"),
			Steps: rapid.SliceOfN(rapid.Custom(genStep), 1, max).Draw(t, "steps"),
			Early: rapid.IntRange(0, 2).Draw(t, "early") == 2,
		}
		for i := range h.Steps {
			if u := &h.Steps[i]; h.Early && (u.Get == getNoDate || u.Get == getBadDate) { // it would look newer than all to come
				u.Get = getOK
			}
		}
		return h
	}
}

func (h *updateHistory) failures() (n int) {
	for _, u := range h.Steps {
		if u.Head >= headDrop || u.Head >= head404 || !goodGet(u.Get) || u.Disk > 0 {
			n++
		}
	}
	return n
}

func runUpdates(ctx *pbt.Ctx, h updateHistory) error {
	top := ctx.Scratch()
	s := &site{h: &h, top: top, dir: filepath.Join(top, "data", "here")}
	cwd := filepath.Join(top, "cwd")
	pbt.Must(os.Mkdir(cwd, 0o755))
	writeFile(filepath.Join(cwd, archiveName), []byte("not yours"))
	reused := opencorpora.NewLoader(s.dir)
	n := 0
	s.update = func(force bool) (err error) {
		loader := reused
		if n++; n%2 == 0 {
			loader = opencorpora.NewLoader(s.dir)
		}
		tree.In(cwd, func() { err = loader.Update(force) })
		return err
	}
	for i, u := range h.Steps {
		ctx.LabelIf(u.Head != 0, "question: %s", headNames[u.Head])
		ctx.LabelIf(u.Get != 0, "download: %s", getNames[u.Get])
		ctx.LabelIf(u.Disk != 0, "disk full")
		if err := s.step(ctx, u); err != nil {
			return pbt.Errf("update %d: %v", i+1, err)
		}
	}
	ctx.NonTrivialIf(len(h.Steps) >= 2 && h.failures() > 0)
	return s.recovers(ctx, h.Steps[len(h.Steps)-1].Cut%2 == 0)
}

// byHand is a history of the single steps of updates, done in any order from a good server.
type byHand struct {
	First int
	Early bool // see updateHistory
	Steps []handStep
}

type handStep struct {
	Verb   int // of handVerbs
	New    int // issues the server goes forward before
	Delete int // see updateStep
	Force  bool
	NoDate bool // the server tells no date of the archive sent
}

var handVerbs = []string{"update", "download", "unpack", "compile", "required"}

func genByHand(t *rapid.T) byHand {
	step := rapid.Custom(func(t *rapid.T) handStep {
		st := handStep{Verb: rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4}).Draw(t, "verb"), New: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "new"), Force: rapid.Bool().Draw(t, "force")}
		if rapid.IntRange(0, 3).Draw(t, "deletes") == 3 {
			st.Delete = rapid.IntRange(1, 7).Draw(t, "delete")
		}
		st.NoDate = rapid.IntRange(0, 5).Draw(t, "no date") == 5
		return st
	})
	return byHand{First: rapid.SampledFrom([]int{1, 4, 5, 8}).Draw(t, "first"), Early: rapid.Bool().Draw(t, "early"), Steps: rapid.SliceOfN(step, 1, 10).Draw(t, "steps")}
}

func runByHand(ctx *pbt.Ctx, c byHand) error {
	top := ctx.Scratch()
	s := &site{h: &updateHistory{First: c.First, Apart: 3, Early: c.Early}, top: top, dir: filepath.Join(top, "data")}
	cwd := filepath.Join(top, "cwd")
	pbt.Must(os.Mkdir(cwd, 0o755))
	pbt.Must(os.Mkdir(s.dir, 0o755))
	loader := opencorpora.NewLoader(s.dir)
	ctx.LabelIf(c.Early, "early")
	mixed := map[int]bool{}
	steps := append(append([]handStep(nil), c.Steps...), handStep{New: 1}, handStep{})
	for n, st := range steps {
		s.issue += st.New
		for i, name := range []string{archiveName, unpackedName, compiledName} {
			if st.Delete>>i&1 != 0 {
				pbt.Must(os.RemoveAll(s.path(name)))
			}
		}
		offered := s.edition(s.issue)
		before := s.state()
		trees := tree.Snapshot(top)
		server := web.Start()
		u := updateStep{Force: st.Force}
		if st.NoDate && !c.Early {
			u.Get = getNoDate
		}
		server.Script(u.answers(offered, s.issue))
		newer := !before.hasA || issued(s.issue).After(before.mtime)
		var err error
		var yes bool
		tree.In(cwd, func() {
			switch handVerbs[st.Verb] {
			case "update":
				err = loader.Update(st.Force)
			case "download":
				yes, err = loader.DownloadUpdate()
			case "unpack":
				err = loader.UnpackUpdate()
			case "compile":
				err = loader.ParseUpdate(s.path(unpackedName), s.path(compiledName))
			case "required":
				yes, err = loader.IsUpdateRequired()
			}
		})
		ctx.Exec(1)
		mixed[st.Verb] = true
		after := s.state()
		fail := func(format string, args ...any) error {
			return pbt.Errf("step %d, %s (forced %v) with issue %d on the server, archive %s (issue %d), dictionary %s, index %s: %s", n+1, handVerbs[st.Verb], st.Force, s.issue,
				describe(before.a, before.hasA), s.issueOf(before.a), describe(before.u, before.hasU), describe(before.c, before.hasC), fmt.Sprintf(format, args...))
		}
		may := map[string][]string{"update": {archiveName, unpackedName, compiledName}, "download": {archiveName}, "unpack": {unpackedName}, "compile": {compiledName}}[handVerbs[st.Verb]]
		for i := range may {
			may[i] = filepath.Join("data", may[i])
		}
		if d := tree.Diff(trees, tree.Snapshot(top), may...); len(d) > 0 {
			return fail("%s", strings.Join(d, ", "))
		}
		switch handVerbs[st.Verb] {
		case "update":
			if err != nil {
				return fail("failed: %v", err)
			}
			if !after.hasC {
				return fail("succeeded without an index")
			}
			if err = offered.isCompiledOf(after.c); err != nil {
				return fail("succeeded, but the index is not that of the dictionary on the server: %v", err)
			}
		case "download", "required":
			if err != nil || yes != newer {
				return fail("answered %v, %v, newer: %v", yes, err, newer)
			}
			if handVerbs[st.Verb] == "download" && newer && !bytes.Equal(after.a, offered.archive) {
				return fail("downloaded %s", describe(after.a, after.hasA))
			}
		case "unpack":
			switch {
			case before.hasA != (err == nil):
				return fail("error %v", err)
			case err == nil && !bytes.Equal(after.u, reference(before.a)):
				return fail("unpacked to %s", describe(after.u, after.hasU))
			}
		case "compile":
			if before.hasU != (err == nil) {
				return fail("error %v", err)
			}
		}
		s.age(before)
	}
	ctx.NonTrivialIf(len(mixed) > 2)
	return nil
}

// meanwhile is a dictionary published while the one before it is being downloaded.
type meanwhile struct {
	First  int
	Behind int // seconds the server's clock is behind
	Kind   int // of the answer
	Force  bool
}

func runMeanwhile(ctx *pbt.Ctx, c meanwhile) error {
	ctx.NonTrivial()
	ctx.LabelIf(c.Behind > 0, "clock behind")
	top := ctx.Scratch()
	loader := opencorpora.NewLoader(top)
	date := func(t time.Time) string {
		return t.Add(-time.Duration(c.Behind)*time.Second).UTC().Format("Mon, 02 Jan 2006 15:04:05") + " GMT"
	}
	server := web.Start()
	issue, published := 0, time.Now().Add(-time.Hour)
	var mu sync.Mutex
	kinds := []int{web.Whole, web.Chunked, web.ToEnd}
	offer := func(method string, n int) web.Answer {
		mu.Lock()
		defer mu.Unlock()
		a := web.Answer{Kind: kinds[c.Kind%3], Status: 200, LM: date(published), Body: editionNo(c.First + 4*issue).archive}
		if method == "GET" && issue == 0 {
			a.Half = func() { // the next one comes with the next second
				next := time.Now().Truncate(time.Second).Add(time.Second)
				time.Sleep(time.Until(next) + 5*time.Millisecond)
				mu.Lock()
				issue, published = 1, next
				mu.Unlock()
			}
		}
		return a
	}
	for i := 0; i < 3; i++ {
		ctx.Exec(1)
		server.Script(offer)
		if err := loader.Update(c.Force); err != nil {
			return pbt.Errf("update %d: %v", i+1, err)
		}
		want := 1
		if i == 0 {
			want = 0
		}
		if n := server.Count("GET"); i == 2 && n > 0 {
			return pbt.Errf("update 3 downloads though nothing newer was published")
		}
		got, ok := readIf(filepath.Join(top, compiledName))
		if !ok {
			return pbt.Errf("update %d: no index", i+1)
		}
		if err := editionNo(c.First + 4*want).isCompiledOf(got); err != nil {
			return pbt.Errf("a dictionary was published while the one before was downloaded (server's clock %d s behind): after update %d the index is not that of dictionary %d: %v", c.Behind, i+1, want, err)
		}
	}
	return nil
}

func o05() pbt.Property {
	return pbt.Property{
		ID:   "O05",
		Rule: "at least 2 updates before the final one, with a failure among them",
		Assumptions: []string{
			"the server is a scripted HTTP proxy on the loopback interface; after each download the file's time is set to half an hour after the issue, as if issues were hours apart",
			"the user removes any of the three files but does not alter them, and one update runs at a time",
			"a failing device is a system call on a file of the data directory that fails, once or (for lack of space) from then on; removing files does not fail",
			"the process is not killed in the middle of an update (that is O09)",
		},
		Shards: 8,
		Facets: []pbt.Facet{
			pbt.Rapid("history", 1600, 30000, genUpdates(6), runUpdates),
			pbt.Enum("single", func(tier string, yield func(updateHistory) bool) {
				for head := 0; head < heads; head++ {
					for get := 0; get < gets; get++ {
						for force := 0; force < 2; force++ {
							for before := 0; before < 3; before++ {
								steps := []updateStep{{Force: force == 1, New: 1, Head: head, Get: get, Cut: 333 + 7*get}}
								if before > 0 {
									steps = append([]updateStep{{}}, steps...)
								}
								if before == 2 {
									steps[1].New = 0
								}
								if !yield(updateHistory{First: 4 + head%2, Steps: steps}) {
									return
								}
							}
						}
					}
				}
			}, runUpdates),
			failingCalls(60, 1500, "download"),
			everyFailingCall("download"),
			pbt.Rapid("failing-update", 160, 8000, genCrash(false, []int{trace.Fail, trace.FailOn}, nil, []string{"read", "close"}, []string{"stat", "open"}, []string{"create", "rename", "mkdir"}), runFailing),
			pbt.Enum("failing-every-call", crashCases(true, trace.Fail, trace.FailOn), runFailing),
			pbt.Rapid("by-hand", 800, 15000, genByHand, runByHand),
			pbt.Enum("published-meanwhile", func(tier string, yield func(meanwhile) bool) {
				for i := 0; i < 24; i++ {
					if tier != "thorough" && i%3 != 0 {
						continue
					}
					if !yield(meanwhile{First: 4 + i%2, Behind: []int{0, 0, 3600, 100 * 86400}[i/2%4], Kind: i / 8, Force: i%3 == 0}) {
						return
					}
				}
			}, runMeanwhile),
			largeArchives(),
			suddenChanges(),
			pbt.Enum("deleted", func(tier string, yield func(updateHistory) bool) {
				for del := 0; del < 8; del++ {
					for head := 0; head < heads; head++ {
						for force := 0; force < 2; force++ {
							for _, get := range []int{getOK, get404, getCutBody, getTruncated, getBroken} {
								if !yield(updateHistory{First: 4, Steps: []updateStep{{}, {Force: force == 1, Head: head, Get: get, Cut: 500, Delete: del, New: del % 2}}}) {
									return
								}
							}
						}
					}
				}
			}, runUpdates),
			pbt.Enum("full-disk", func(tier string, yield func(updateHistory) bool) {
				step := 40
				if tier == "thorough" {
					step = 5
				}
				for disk := 1; disk <= 1001; disk += step {
					for first := 0; first < 2; first++ {
						for del := 0; del < 8; del += 4 - 3*first {
							steps := []updateStep{{Disk: disk, New: 1, Force: disk%2 == 0, Delete: del}}
							if first == 1 {
								steps = append([]updateStep{{}}, steps...)
							}
							if !yield(updateHistory{First: 2, Steps: steps}) {
								return
							}
						}
					}
				}
			}, runUpdates),
		},
	}
}
