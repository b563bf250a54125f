package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/amarin/gomorphy/pkg/opencorpora"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/trace"
	"github.com/amarin/gomorphy/verif/tree"
	"github.com/amarin/gomorphy/verif/web"

	"pgregory.net/rapid"
)

// errand is what a child process does with a loader, to be killed or failed at any of its system calls on files.
type errand struct {
	Verb  string // update, unpack, compile, save, load, required, download
	Dir   string
	Force bool
	From  string // index to save
	To    string // where a loaded index is written
}

// answer is what the loader answered.
type answer struct {
	Err string
	Yes bool
}

const answerMark = "\nANSWER "

// child runs an errand in a process of its own.
func child(spec string) {
	var e errand
	pbt.Must(json.Unmarshal([]byte(spec), &e))
	var a answer
	var err error
	loader := opencorpora.NewLoader(e.Dir)
	to := filepath.Join(e.Dir, compiledName)
	switch e.Verb {
	case "update":
		err = loader.Update(e.Force)
	case "unpack":
		err = loader.UnpackUpdate()
	case "compile":
		err = loader.ParseUpdate(filepath.Join(e.Dir, unpackedName), to)
	case "save":
		idx, lerr := opencorpora.NewLoader(filepath.Dir(e.From)).LoadIndex()
		pbt.Must(lerr)
		err = loader.SaveIndex(idx, to)
	case "load":
		idx, lerr := loader.LoadIndex()
		if err = lerr; err == nil {
			data, derr := dump(idx)
			pbt.Must(derr)
			writeFile(e.To, data)
		}
	case "required":
		a.Yes, err = loader.IsUpdateRequired()
	case "download":
		a.Yes, err = loader.DownloadUpdate()
	}
	if err != nil {
		if a.Err = err.Error(); a.Err == "" {
			a.Err = "error"
		}
	}
	data, err := json.Marshal(a)
	pbt.Must(err)
	fmt.Printf("%s%s\n", answerMark, data)
}

// run runs an errand with a fault among its calls below dir.
func (e errand) run(ctx *pbt.Ctx, cwd string, fault trace.Fault) (answer, trace.Result, error) {
	ctx.Exec(1)
	spec, err := json.Marshal(e)
	pbt.Must(err)
	self, err := os.Executable()
	pbt.Must(err)
	cmd := exec.Command(self)
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(spec), "GOMAXPROCS=2")
	dir, err := filepath.EvalSymlinks(filepath.Dir(e.Dir))
	pbt.Must(err)
	r := trace.Run(cmd, filepath.Join(dir, filepath.Base(e.Dir)), fault)
	var a answer
	if r.Killed {
		return a, r, nil
	}
	i := bytes.LastIndex(r.Out, []byte(answerMark))
	if r.Status != 0 || i < 0 {
		text := string(r.Err)
		if strings.Contains(text, "harness: ") {
			pbt.Must(fmt.Errorf("%s: %s", e.Verb, clip(r.Err)))
		}
		return a, r, pbt.Errf("the process ended with status %d: %s", r.Status, clip(r.Err))
	}
	pbt.Must(json.Unmarshal(r.Out[i+len(answerMark):], &a))
	return a, r, nil
}

// copied is the content of a directory to come back to.
type copied struct {
	dir   string
	files map[string][]byte
	times map[string]time.Time
	dirs  []string
}

func copyOf(dir string) *copied {
	c := &copied{dir: dir, files: map[string][]byte{}, times: map[string]time.Time{}}
	pbt.Must(filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if info.IsDir() {
			c.dirs = append(c.dirs, rel)
			return nil
		}
		data, err := os.ReadFile(p)
		c.files[rel], c.times[rel] = data, info.ModTime()
		return err
	}))
	return c
}

func (c *copied) restore() {
	entries, err := os.ReadDir(c.dir)
	pbt.Must(err)
	for _, e := range entries {
		pbt.Must(os.RemoveAll(filepath.Join(c.dir, e.Name())))
	}
	for _, d := range c.dirs {
		pbt.Must(os.MkdirAll(filepath.Join(c.dir, d), 0o755))
	}
	for f, data := range c.files {
		writeFile(filepath.Join(c.dir, f), data)
		pbt.Must(os.Chtimes(filepath.Join(c.dir, f), c.times[f], c.times[f]))
	}
}

// crash is a history whose last update meets its end, or a failing device, at chosen calls.
type crash struct {
	H       updateHistory
	At      []int // which calls, in thousandths of all; nil: every one
	Deed    int
	Errno   int
	Force   bool // of the update after it
	New     int  // issues the server goes forward before it
	Steps   int  // of a fault: what fails, see faultable
	Kinds   []string
	Verb    string
	Edition int
}

var errnos = map[string][]syscall.Errno{
	"open": {syscall.EACCES, syscall.EMFILE, syscall.EIO}, "create": {syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EROFS},
	"read": {syscall.EIO}, "write": {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT}, "close": {syscall.EIO, syscall.ENOSPC},
	"rename": {syscall.EIO, syscall.ENOSPC, syscall.EACCES}, "mkdir": {syscall.ENOSPC, syscall.EACCES}, "stat": {syscall.EACCES, syscall.EIO},
	"change": {syscall.EIO, syscall.ENOSPC},
}

// pick chooses among the calls made those wanted, and of these the ones named in thousandths.
func pick(calls []trace.Call, at []int, wanted func(trace.Call) bool, max int) []int {
	var all []int
	for i, c := range calls {
		if wanted(c) {
			all = append(all, i)
		}
	}
	if len(all) == 0 {
		return nil
	}
	chosen := map[int]bool{}
	if at == nil { // all but some of many reads or writes of the same file in a row
		for n, i := range all {
			first, last := n == 0 || calls[all[n-1]] != calls[i], n == len(all)-1 || calls[all[n+1]] != calls[i]
			if first || last || len(all) <= max || n%(len(all)/max+1) == 0 {
				chosen[i] = true
			}
		}
	}
	for _, t := range at {
		chosen[all[t*(len(all)-1)/1000]] = true
	}
	return pbt.SortedKeys(chosen)
}

// begin does all updates of the history but the last.
func (c *crash) begin(ctx *pbt.Ctx, top string) (*site, error) {
	s := &site{h: &c.H, top: top, dir: filepath.Join(top, "data")}
	cwd := filepath.Join(top, "cwd")
	pbt.Must(os.Mkdir(cwd, 0o755))
	pbt.Must(os.Mkdir(s.dir, 0o755))
	s.update = func(force bool) (err error) {
		tree.In(cwd, func() { err = opencorpora.NewLoader(s.dir).Update(force) })
		return err
	}
	for i, u := range c.H.Steps[:len(c.H.Steps)-1] {
		if err := s.step(ctx, u); err != nil {
			return nil, pbt.Errf("update %d: %v", i+1, err)
		}
	}
	last := &c.H.Steps[len(c.H.Steps)-1]
	s.issue += last.New
	for i, name := range []string{archiveName, unpackedName, compiledName} {
		if last.Delete>>i&1 != 0 {
			pbt.Must(os.RemoveAll(s.path(name)))
		}
	}
	return s, nil
}

// anyEdition tells if a compiled index holds an edition offered so far.
func (s *site) anyEdition(data []byte) bool {
	for v := s.issue; v >= 0; v-- {
		if s.edition(v).isCompiledOf(data) == nil {
			return true
		}
	}
	return false
}

// afterwards is the update after a killed or failed one, and another one.
func (s *site) afterwards(ctx *pbt.Ctx, what string, before state, force bool, forward int) error {
	s.age(before)
	s.issue += forward
	server := web.Start()
	offered := s.edition(s.issue)
	good := updateStep{}
	server.Script(good.answers(offered, s.issue))
	ctx.Exec(1)
	st := s.state()
	if err := s.update(force); err != nil {
		return pbt.Errf("%s: the next update (forced %v) fails: %v", what, force, err)
	}
	now := s.state()
	if !now.hasC {
		return pbt.Errf("%s: the next update (forced %v) succeeds without a compiled index", what, force)
	}
	if err := offered.isCompiledOf(now.c); err != nil {
		return pbt.Errf("%s, leaving archive %s (that of the server: %v), dictionary %s, index %s: the next update (forced %v, %d issues later) succeeds, but the index is not that of the dictionary on the server: %v",
			what, describe(st.a, st.hasA), bytes.Equal(st.a, offered.archive), describe(st.u, st.hasU), describe(st.c, st.hasC), force, forward, err)
	}
	s.age(st)
	server.Script(good.answers(offered, s.issue))
	if err := s.update(!force); err != nil {
		return pbt.Errf("%s: the update after the next one fails: %v", what, err)
	}
	if n := server.Count("GET"); n > 0 {
		return pbt.Errf("%s: the update after the next one downloads again", what)
	}
	last := s.state()
	if err := offered.isCompiledOf(last.c); err != nil || !last.hasC {
		return pbt.Errf("%s: after the update after the next one the index is not that of the dictionary on the server: %v", what, err)
	}
	return nil
}

// afterBad is the update after one killed while the server offered no good archive, and another one once something newer is published:
// the first may fail, as what was fetched may have the date of the dictionary there is by then.
func (s *site) afterBad(ctx *pbt.Ctx, what string, before state, force bool) error {
	s.age(before)
	server := web.Start()
	for try := 0; try < 3; try++ {
		offered := s.edition(s.issue)
		server.Script((&updateStep{}).answers(offered, s.issue))
		ctx.Exec(1)
		st := s.state()
		err := s.update(force != (try == 1))
		now := s.state()
		switch {
		case err != nil && try == 2:
			return pbt.Errf("%s, the server had no good archive: the update once something newer is published fails: %v", what, err)
		case err != nil && (st.hasC != now.hasC || !bytes.Equal(st.c, now.c)):
			return pbt.Errf("%s, the server had no good archive: the next update fails (%v), but the compiled index changed from %s to %s", what, err, describe(st.c, st.hasC), describe(now.c, now.hasC))
		case err == nil && !now.hasC:
			return pbt.Errf("%s, the server had no good archive: the next update succeeds without a compiled index", what)
		case err == nil:
			if err = offered.isCompiledOf(now.c); err != nil {
				return pbt.Errf("%s, the server had no good archive: the next update succeeds, but the index is not that of the dictionary on the server: %v", what, err)
			}
		}
		ctx.LabelIf(err != nil, "fails after a bad archive")
		s.age(st)
		if try == 1 {
			s.issue++
		}
	}
	return nil
}

func (u *updateStep) String() string {
	return fmt.Sprintf("update (forced %v, server: %s then %s)", u.Force, headNames[u.Head], getNames[u.Get])
}

// whole tells if a file is what it was or one of the contents it may have got.
func whole(name string, before []byte, had bool, after []byte, has bool, mayVanish bool, may ...[]byte) error {
	switch {
	case had == has && bytes.Equal(before, after):
		return nil
	case !has && mayVanish:
		return nil
	case !has:
		return pbt.Errf("the %s is gone", name)
	}
	for _, m := range may {
		if m != nil && bytes.Equal(m, after) {
			return nil
		}
	}
	return pbt.Errf("the %s, before %s, is now %s of neither the old nor the new one", name, describe(before, had), describe(after, has))
}

func runKilled(ctx *pbt.Ctx, c crash) error {
	top := ctx.Scratch()
	s, err := c.begin(ctx, top)
	if err != nil {
		return err
	}
	u := &c.H.Steps[len(c.H.Steps)-1]
	issue := s.issue
	offered := s.edition(issue)
	before := s.state()
	saved := copyOf(s.dir)
	trees := tree.Snapshot(top)
	e := errand{Verb: "update", Dir: s.dir, Force: u.Force}
	server := web.Start()
	server.Script(u.answers(offered, issue))
	body := offered.archive
	if u.Get > getCutHead {
		body = append([]byte{}, offered.bad(u.Get, u.Cut)...)
	}
	_, dry, err := e.run(ctx, filepath.Join(top, "cwd"), trace.Fault{At: -1})
	if err != nil {
		return pbt.Errf("%v: %v", u, err)
	}
	max := 24
	if ctx.Thorough() {
		max = 200
	}
	at := pick(dry.Calls, c.At, trace.Call.Alters, max)
	ctx.NonTrivialIf(len(at) > 0 && before.hasC)
	for n, i := range at {
		s.issue = issue
		saved.restore()
		server.Script(u.answers(offered, issue))
		_, r, err := e.run(ctx, filepath.Join(top, "cwd"), trace.Fault{At: i, Deed: c.Deed})
		if err != nil {
			return pbt.Errf("%v: %v", u, err)
		}
		what := fmt.Sprintf("%v killed at its file operation %d of %d", u, i, len(dry.Calls))
		if len(r.Calls) > 0 && r.Hit {
			what += fmt.Sprintf(", %v", r.Calls[len(r.Calls)-1])
		}
		ctx.LabelIf(r.Killed, "killed at %s", dry.Calls[i])
		after := s.state()
		bad := !goodGet(u.Get)
		if err = whole("archive", before.a, before.hasA, after.a, after.hasA, bad || !before.hasA, body); err != nil {
			return pbt.Errf("%s: %v", what, err)
		}
		if err = whole("unpacked dictionary", before.u, before.hasU, after.u, after.hasU, false, reference(body), reference(before.a)); err != nil {
			return pbt.Errf("%s: %v", what, err)
		}
		if !(before.hasC == after.hasC && bytes.Equal(before.c, after.c)) && !(after.hasC && s.anyEdition(after.c)) {
			return pbt.Errf("%s: the compiled index, before %s, is now %s of neither the old nor the new one", what, describe(before.c, before.hasC), describe(after.c, after.hasC))
		}
		for _, d := range tree.Diff(trees, tree.Snapshot(top)) {
			if !strings.Contains(d, " data/") {
				return pbt.Errf("%s: %s", what, d)
			}
		}
		if bad {
			err = s.afterBad(ctx, what, before, c.Force != (n%2 == 1))
		} else {
			err = s.afterwards(ctx, what, before, c.Force != (n%2 == 1), (c.New+n/2)%2)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// faultable tells which calls a case fails.
func (c *crash) faultable(call trace.Call) bool {
	if call.Name == "remove" { // what can not be removed stays: nothing is claimed
		return false
	}
	if len(c.Kinds) == 0 {
		return true
	}
	for _, k := range c.Kinds {
		if k == call.Name {
			return true
		}
	}
	return false
}

func (c *crash) errno(call trace.Call, n int) syscall.Errno {
	list := errnos[call.Name]
	return list[(c.Errno+n)%len(list)]
}

func runFailing(ctx *pbt.Ctx, c crash) error {
	top := ctx.Scratch()
	s, err := c.begin(ctx, top)
	if err != nil {
		return err
	}
	u := &c.H.Steps[len(c.H.Steps)-1]
	issue := s.issue
	offered := s.edition(issue)
	before := s.state()
	saved := copyOf(s.dir)
	trees := tree.Snapshot(top)
	e := errand{Verb: "update", Dir: s.dir, Force: u.Force}
	server := web.Start()
	server.Script(u.answers(offered, issue))
	cwd := filepath.Join(top, "cwd")
	_, dry, err := e.run(ctx, cwd, trace.Fault{At: -1})
	if err != nil {
		return pbt.Errf("%v: %v", u, err)
	}
	max := 24
	if ctx.Thorough() {
		max = 200
	}
	at := pick(dry.Calls, c.At, c.faultable, max)
	ctx.NonTrivialIf(len(at) > 0 && before.hasC)
	fetches := !before.hasA || u.Head == headBadDate || u.Head == headOK && issued(issue).After(before.mtime)
	for n, i := range at {
		s.issue = issue
		saved.restore()
		server.Script(u.answers(offered, issue))
		errno := c.errno(dry.Calls[i], n)
		a, r, err := e.run(ctx, cwd, trace.Fault{At: i, Deed: c.Deed, Errno: errno})
		what := fmt.Sprintf("%v, file operation %d of %d (%v) fails with %q", u, i, len(dry.Calls), dry.Calls[i], errno)
		if c.Deed == trace.FailOn {
			what += " and all later ones needing space"
		}
		if err != nil {
			return pbt.Errf("%s: %v", what, err)
		}
		ctx.LabelIf(r.Hit, "failing %s", dry.Calls[i])
		after := s.state()
		if d := tree.Diff(trees, tree.Snapshot(top), "data/"+archiveName, "data/"+unpackedName, "data/"+compiledName); len(d) > 0 {
			return pbt.Errf("%s (%q): %s", what, a.Err, strings.Join(d, ", "))
		}
		switch {
		case a.Err != "":
			if before.hasC != after.hasC || !bytes.Equal(before.c, after.c) {
				return pbt.Errf("%s: failed with %q, but the compiled index changed from %s to %s", what, a.Err, describe(before.c, before.hasC), describe(after.c, after.hasC))
			}
			if server.Count("GET") == 0 && s.issueOf(before.a) >= 0 && !bytes.Equal(before.a, after.a) {
				return pbt.Errf("%s: failed with %q without a download, and the archive, good before, is now %s", what, a.Err, describe(after.a, after.hasA))
			}
		case !after.hasC || !s.anyEdition(after.c):
			return pbt.Errf("%s: reported success, but the compiled index (%s) holds no dictionary ever offered", what, describe(after.c, after.hasC))
		case fetches && !u.Force:
			if !goodGet(u.Get) {
				return pbt.Errf("%s: reported success though the dictionary could not be fetched", what)
			}
			if err = offered.isCompiledOf(after.c); err != nil {
				return pbt.Errf("%s: reported success, but the index does not hold the dictionary offered: %v", what, err)
			}
		}
		if err = s.afterwards(ctx, what, before, c.Force != (n%2 == 1), (c.New+n/2)%2); err != nil {
			return err
		}
	}
	return nil
}

func genCrash(good bool, deeds []int, kinds ...[]string) func(*rapid.T) crash {
	return func(t *rapid.T) crash {
		c := crash{H: genUpdates(3)(t), Deed: rapid.SampledFrom(deeds).Draw(t, "deed"), Force: rapid.Bool().Draw(t, "force"), New: rapid.IntRange(0, 1).Draw(t, "new"),
			Errno: rapid.IntRange(0, 11).Draw(t, "errno"), At: rapid.SliceOfN(rapid.IntRange(0, 1000), 1, 5).Draw(t, "at")}
		c.H.First, c.H.Apart = rapid.SampledFrom([]int{1, 4, 5, 8}).Draw(t, "first"), 3 // small ones
		for i := range c.H.Steps {
			c.H.Steps[i].Disk = 0
		}
		if last := &c.H.Steps[len(c.H.Steps)-1]; good && !goodGet(last.Get) {
			last.Get %= getToEnd + 1
		}
		if c.H.Early && !good { // a time that can not be set is the present one, newer than all to come
			c.Kinds = []string{"read", "write", "open", "create", "close", "rename", "mkdir", "stat"}
			return c
		}
		if len(kinds) > 0 {
			c.Kinds = rapid.SampledFrom(kinds).Draw(t, "kinds")
		}
		return c
	}
}

// crashHistories are the situations in which every call is tried.
func crashHistories(bad bool) (res []updateHistory) {
	for _, first := range []int{4, 5} {
		for force := 0; force < 2; force++ {
			f := force == 1
			res = append(res,
				updateHistory{First: first, Apart: 3, Steps: []updateStep{{Force: f}}},
				updateHistory{First: first, Apart: 3, Steps: []updateStep{{}, {Force: f, New: 1}}},
				updateHistory{First: first, Apart: 3, Steps: []updateStep{{}, {Force: f, Delete: 4}}},
				updateHistory{First: first, Apart: 3, Steps: []updateStep{{}, {Force: f, Delete: 6}}},
				updateHistory{First: first, Apart: 3, Steps: []updateStep{{}, {Force: f, New: 1, Delete: 1}}},
				updateHistory{First: first, Apart: 3, Steps: []updateStep{{}, {Force: f, New: 1, Delete: 2}}},
				updateHistory{First: first, Apart: 3, Steps: []updateStep{{}, {Force: true, Head: headDrop, Delete: 2 * force}}},
				// after an archive of something else, of the same date
				updateHistory{First: first, Apart: 3, Steps: []updateStep{{}, {New: 1, Get: getOther}, {Force: f}}},
			)
			if bad {
				res = append(res,
					updateHistory{First: first, Apart: 3, Steps: []updateStep{{}, {Force: f, New: 1, Get: getBroken}}},
					updateHistory{First: first, Apart: 3, Steps: []updateStep{{}, {Force: f, New: 1, Get: getTruncated, Cut: 500}}},
				)
			}
		}
	}
	return res
}

func crashCases(bad bool, deeds ...int) func(string, func(crash) bool) {
	return func(_ string, yield func(crash) bool) {
		for _, deed := range deeds {
			for i, h := range crashHistories(bad) {
				if !yield(crash{H: h, Deed: deed, Force: i%2 == 0, Errno: i}) {
					return
				}
			}
		}
	}
}

func o09() pbt.Property {
	return pbt.Property{
		ID:    "O09",
		Level: "fault_enumeration",
		Rule:  "there was a compiled index before and the update changes files",
		Assumptions: []string{
			"the update is killed by a tracer before, or in the middle of, a system call on a file of the data directory; what the operating system has taken is on the disk: a loss of power is not tried",
			"the server is a scripted HTTP proxy on the loopback interface; files keep the order of their times",
			"what the server offered to the update killed was a good archive, if it came at all; in killed-bad an archive of no dictionary",
		},
		Shards: 8,
		Facets: []pbt.Facet{
			pbt.Enum("every-call", crashCases(false, trace.Kill, trace.KillHalf), runKilled),
			pbt.Rapid("killed", 160, 8000, genCrash(true, []int{trace.Kill, trace.Kill, trace.KillHalf}), runKilled),
			pbt.Rapid("killed-bad", 160, 4000, func(t *rapid.T) crash {
				c := genCrash(false, []int{trace.Kill, trace.Kill, trace.KillHalf})(t)
				last := &c.H.Steps[len(c.H.Steps)-1]
				if c.Kinds = nil; goodGet(last.Get) {
					last.Get = rapid.SampledFrom([]int{getPage, getTruncated, getFlipped, getBroken, getEmpty, getNothing, getCutXML, getOther}).Draw(t, "bad archive")
				}
				if last.Head != headOK || last.New == 0 { // it is fetched
					last.Head, last.New = headOK, 1
				}
				return c
			}, runKilled),
			pbt.Enum("dated-early", func(_ string, yield func(crash) bool) {
				for i, h := range crashHistories(false) {
					h.Early = true
					if !yield(crash{H: h, Deed: trace.Kill, Force: i%2 == 0}) {
						return
					}
				}
			}, runKilled),
		},
	}
}

// ---------------------------------------------------------------- failing calls of single operations

// failingCalls is a facet in which every system call on files of an operation fails once.
func failingCalls(quick, thorough int, verbs ...string) pbt.Facet {
	return pbt.Rapid("failing-calls", quick, thorough, func(t *rapid.T) crash {
		return crash{Verb: rapid.SampledFrom(verbs).Draw(t, "operation"), Deed: rapid.SampledFrom([]int{trace.Fail, trace.Fail, trace.FailOn}).Draw(t, "deed"),
			Edition: rapid.SampledFrom([]int{4, 5, 8, 9}).Draw(t, "edition"), New: rapid.IntRange(0, 2).Draw(t, "what is there"), Errno: rapid.IntRange(0, 11).Draw(t, "errno"),
			At: rapid.SliceOfN(rapid.IntRange(0, 1000), 2, 8).Draw(t, "at")}
	}, runErrand)
}

// everyFailingCall is a facet in which each of the calls on files of an operation fails, alone or with those after it.
func everyFailingCall(verbs ...string) pbt.Facet {
	return pbt.Enum("every-failing-call", func(_ string, yield func(crash) bool) {
		for i, verb := range verbs {
			for _, deed := range []int{trace.Fail, trace.FailOn} {
				for there := 0; there < 3; there++ {
					if !yield(crash{Verb: verb, Deed: deed, Edition: 4 + (i+there)%2, New: there, Errno: i + 5*there}) {
						return
					}
				}
			}
		}
	}, runErrand)
}

func runErrand(ctx *pbt.Ctx, c crash) error {
	top := ctx.Scratch()
	s := &site{h: &updateHistory{First: c.Edition}, top: top, dir: filepath.Join(top, "data")}
	cwd := filepath.Join(top, "cwd")
	other := filepath.Join(top, "other")
	for _, d := range []string{cwd, s.dir, other} {
		pbt.Must(os.Mkdir(d, 0o755))
	}
	ed, old := s.edition(0), s.edition(4)
	writeFile(filepath.Join(other, compiledName), ed.dat)
	put := func(name string, has bool, data []byte) {
		if has {
			writeFile(s.path(name), data)
		}
	}
	written := filepath.Join(top, "loaded")
	mtime := issued(0).Add(30 * time.Minute)
	target := ""
	s.issue = 0
	switch c.Verb {
	case "unpack":
		target = unpackedName
		put(archiveName, true, ed.archive)
		put(unpackedName, c.New > 0, old.xml)
		put(compiledName, c.New > 1, old.dat)
	case "compile":
		target = compiledName
		put(unpackedName, true, ed.xml)
		put(compiledName, c.New > 0, old.dat)
	case "save":
		target = compiledName
		put(compiledName, c.New > 0, old.dat)
	case "load":
		put(compiledName, true, ed.dat)
	case "required", "download":
		if c.Verb == "download" {
			target = archiveName
		}
		put(archiveName, c.New > 0, old.archive)
		if c.New > 0 {
			pbt.Must(os.Chtimes(s.path(archiveName), mtime, mtime))
			s.issue = c.New - 1 // with 1: nothing newer
		}
	}
	offered := ed
	if c.Verb == "required" || c.Verb == "download" {
		offered = s.edition(s.issue)
	}
	newer := c.New != 1
	ctx.Label("%s", c.Verb)
	saved := copyOf(s.dir)
	before := s.state()
	trees := tree.Snapshot(top)
	server := web.Start()
	script := func() { server.Script((&updateStep{}).answers(offered, s.issue)) }
	script()
	e := errand{Verb: c.Verb, Dir: s.dir, From: filepath.Join(other, compiledName), To: written}
	_, dry, err := e.run(ctx, cwd, trace.Fault{At: -1})
	if err != nil {
		return pbt.Errf("%s: %v", c.Verb, err)
	}
	at := pick(dry.Calls, c.At, c.faultable, 40)
	ctx.NonTrivialIf(len(at) > 0)
	for n, i := range at {
		saved.restore()
		pbt.Must(os.RemoveAll(written))
		script()
		errno := c.errno(dry.Calls[i], n)
		a, r, err := e.run(ctx, cwd, trace.Fault{At: i, Deed: c.Deed, Errno: errno})
		what := fmt.Sprintf("%s of edition %d (%d), file operation %d of %d (%v) fails with %q", c.Verb, c.Edition, c.New, i, len(dry.Calls), dry.Calls[i], errno)
		if err != nil {
			return pbt.Errf("%s: %v", what, err)
		}
		if !r.Hit || i >= len(r.Calls) || r.Calls[i] != dry.Calls[i] {
			continue // it went another way
		}
		ctx.Label("%s: failing %s", c.Verb, dry.Calls[i])
		got, hasGot := readIf(written)
		pbt.Must(os.RemoveAll(written))
		now := tree.Snapshot(top)
		failed := a.Err != ""
		var allowed []string
		if !failed && target != "" {
			allowed = append(allowed, filepath.Join("data", target))
		}
		if d := tree.Diff(trees, now, allowed...); len(d) > 0 {
			return pbt.Errf("%s (%q): %s", what, a.Err, strings.Join(d, ", "))
		}
		after := s.state()
		switch c.Verb {
		case "unpack":
			if !failed && !bytes.Equal(after.u, ed.xml) {
				return pbt.Errf("%s: unpacked without error to %s, the dictionary has %d bytes", what, describe(after.u, after.hasU), len(ed.xml))
			}
		case "compile", "save":
			if !failed {
				if !after.hasC {
					return pbt.Errf("%s: no error, but there is no index", what)
				}
				if err = ed.isCompiledOf(after.c); err != nil {
					return pbt.Errf("%s: no error, but the index is wrong: %v", what, err)
				}
			}
		case "load":
			if !failed && (!hasGot || !bytes.Equal(got, ed.dat)) {
				return pbt.Errf("%s: loaded without error, but not what is in the file", what)
			}
		case "required":
			switch {
			case failed && a.Yes:
				return pbt.Errf("%s: answered yes with error %q", what, a.Err)
			case !failed && a.Yes != newer:
				return pbt.Errf("%s: answered %v", what, a.Yes)
			}
		case "download":
			switch {
			case failed && a.Yes:
				return pbt.Errf("%s: downloaded, with error %q", what, a.Err)
			case !failed && a.Yes != newer:
				return pbt.Errf("%s: downloaded: %v", what, a.Yes)
			case a.Yes && !bytes.Equal(after.a, offered.archive):
				return pbt.Errf("%s: downloaded without error, but the archive is %s", what, describe(after.a, after.hasA))
			case !failed && !a.Yes && !bytes.Equal(after.a, before.a):
				return pbt.Errf("%s: nothing downloaded, but the archive changed", what)
			}
		}
	}
	return nil
}
