package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/pbt"

	"pgregory.net/rapid"
)

// entry is something put into the file system before the check.
type entry struct {
	Path string // relative to the top of the scratch directory
	Kind string // "dir", "file", "link", "socket"
	To   string `json:",omitempty"` // of a link
}

func build(top string, entries []entry) {
	for _, e := range entries {
		p := filepath.Join(top, e.Path)
		if !strings.HasPrefix(p, top+"/") {
			continue
		}
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		switch e.Kind { // whatever cannot be made because of other entries is left out
		case "dir":
			_ = os.MkdirAll(p, 0o755)
		case "file":
			if f, err := os.OpenFile(p, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644); err == nil {
				_, _ = f.WriteString("content of " + e.Path)
				_ = f.Close()
			}
		case "link":
			_ = os.Symlink(e.To, p)
		case "socket": // can be examined, but not opened
			_ = syscall.Mknod(p, syscall.S_IFSOCK|0o644, 0)
		}
	}
}

// snapshot describes everything below top.
func snapshot(top string) map[string]string {
	res := map[string]string{}
	pbt.Must(filepath.WalkDir(top, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		info, err := d.Info()
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(top, p)
		switch {
		case info.Mode().IsRegular():
			data, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			res[rel] = info.Mode().String() + " " + string(data)
		case info.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(p)
			res[rel] = "-> " + to
		default:
			res[rel] = info.Mode().String()
		}
		return nil
	}))
	return res
}

func differences(before, after map[string]string) (created, changed []string) {
	for p, v := range after {
		switch old, ok := before[p]; {
		case !ok:
			created = append(created, p)
		case old != v:
			changed = append(changed, p)
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			changed = append(changed, p+" (removed)")
		}
	}
	sort.Strings(created)
	sort.Strings(changed)
	return created, changed
}

// inDir runs f in a working directory.
func inDir(dir string, f func()) {
	old, err := os.Getwd()
	pbt.Must(err)
	pbt.Must(os.Chdir(dir))
	defer func() { pbt.Must(os.Chdir(old)) }()
	f()
}

// clean is the reference for the clean form of a slash-separated path.
func clean(p string) string {
	rooted := strings.HasPrefix(p, "/")
	var parts []string
	for _, part := range strings.Split(p, "/") {
		switch {
		case part == "" || part == ".":
		case part == ".." && len(parts) > 0 && parts[len(parts)-1] != "..":
			parts = parts[:len(parts)-1]
		case part == ".." && rooted:
		default:
			parts = append(parts, part)
		}
	}
	res := strings.Join(parts, "/")
	switch {
	case rooted:
		return "/" + res
	case res == "":
		return "."
	}
	return res
}

// ---------------------------------------------------------------- D04

type d04Case struct {
	Entries  []entry
	Cwd      string
	Path     string
	Absolute bool
	Root     bool // a path not below the scratch directory: only looked at
}

var d04Names = []string{"a", "b", "a.txt", "a.tar.gz", ".hidden", ".hidden.x", "noext.", "..x", "sp ace.e xt", "файл.данные", "x.idx", "long.extension", "-", "...",
	// names that are something else to a shell, to Windows or to a URL
	"~", "~/a", "$HOME", "${HOME}", "$X.y", "%41", "*", "a?", "a\\b", "a:b", "A", "A.TXT", " a", "a ", "a.txt ", "\ta", "a\n", "#a", "a;b.c", "file:", "\"a\"", "Файл", "e\u0301", "\xff.x"}

func genRelPath(names []string, max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		parts := rapid.SliceOfN(rapid.OneOf(
			rapid.SampledFrom(names), rapid.SampledFrom(names), rapid.SampledFrom(names),
			rapid.SampledFrom([]string{".", "..", ""}),
			rapid.StringMatching(`[a-c.]{1,4}`),
		), 0, max).Draw(t, "parts")
		return strings.Join(parts, "/") + rapid.SampledFrom([]string{"", "", "", "/", "//", "/."}).Draw(t, "end")
	})
}

func genEntries(names []string, links []string) *rapid.Generator[[]entry] {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) entry {
		e := entry{Kind: rapid.SampledFrom([]string{"dir", "file", "file", "link", "socket"}).Draw(t, "kind")}
		parts := rapid.SliceOfN(rapid.SampledFrom(names), 1, 3).Draw(t, "path")
		e.Path = "w/" + strings.Join(parts, "/")
		if e.Kind == "link" {
			e.To = rapid.SampledFrom(links).Draw(t, "to")
		}
		return e
	}), 0, 6)
}

func d04() pbt.Property {
	return pbt.Property{
		ID: "D04",
		Rule: "cases are a small tree of directories, files and links (dangling and looping ones too), a working directory and a path, relative or absolute, in unclean forms; " +
			"non-trivial: a path whose final element has a name",
		Shards: 4,
		Assumptions: []string{
			"existence is taken from the operating system at the time of the call; run as root, so no path is unreadable for lack of permission",
		},
		Facets: []pbt.Facet{
			pbt.Rapid("paths", 8000, 150000, func(t *rapid.T) d04Case {
				var c d04Case
				c.Entries = genEntries(d04Names, []string{"a", "b", "../b", ".", "nowhere", "a/b", "a.txt", "x/./y"}).Draw(t, "entries")
				c.Cwd = rapid.SampledFrom([]string{"w", "w", "w/a", "w/b", "w/a/b"}).Draw(t, "cwd")
				if len(c.Entries) > 0 && rapid.IntRange(0, 2).Draw(t, "existing") > 0 {
					e := rapid.SampledFrom(c.Entries).Draw(t, "entry")
					c.Path = rapid.SampledFrom([]string{"", "./", "x/../", ".//"}).Draw(t, "unclean") + strings.TrimPrefix(e.Path, "w/") +
						rapid.SampledFrom([]string{"", "", "", "/", "/.", ".x", "/a"}).Draw(t, "more")
					c.Cwd = "w"
				} else {
					c.Path = genRelPath(d04Names, 4).Draw(t, "path")
				}
				c.Absolute = rapid.Bool().Draw(t, "absolute")
				return c
			}, d04Run),
			pbt.Enum("special", func(tier string, yield func(d04Case) bool) {
				for _, p := range []string{"/", "//", "/.", "/..", "", ".", "..", "./", "/nonexistent-a/b.c", "/dev/null", "/dev/null/x", "/proc", " ", "~", "~/", "$HOME", "${HOME}/b.c", "/$HOME", "file:///etc/passwd", "a/b.c ", " a/b.c", "\\", ".\\a", "a\x00b", strings.Repeat("n", 300), strings.Repeat("d/", 3000) + "x.y", "/etc/passwd"} {
					for _, cwd := range []string{"w", "w/a"} {
						if !yield(d04Case{Cwd: cwd, Path: p, Root: true, Entries: []entry{{Path: "w/a/b.c", Kind: "file"}}}) {
							return
						}
					}
				}
			}, d04Run),
		},
	}
}

func d04Run(ctx *pbt.Ctx, c d04Case) (err error) {
	top := ctx.Scratch()
	pbt.Must(os.MkdirAll(filepath.Join(top, "w"), 0o755))
	build(top, c.Entries)
	cwd := filepath.Join(top, c.Cwd)
	if info, serr := os.Stat(cwd); serr != nil || !info.IsDir() {
		cwd = filepath.Join(top, "w")
	}
	before := snapshot(top)
	inDir(cwd, func() {
		real, werr := os.Getwd()
		pbt.Must(werr)
		p := c.Path
		if c.Absolute {
			p = filepath.Join(top, "w") + "/" + c.Path
		}
		abs := p
		if !strings.HasPrefix(p, "/") {
			abs = real + "/" + p
		}
		abs = clean(abs)
		ctx.Exec(1)
		dir, base, ext, rerr := dag.ResolveFilePath(p)
		_, serr := os.Stat(abs)
		ctx.LabelIf(serr == nil, "exists")
		ctx.LabelIf(ext != "", "has an extension")
		ctx.NonTrivialIf(base != "" || ext != "")
		final := abs[strings.LastIndex(abs, "/")+1:]
		wantExt := ""
		if i := strings.LastIndex(final, "."); i >= 0 {
			wantExt = final[i:]
		}
		switch {
		case (rerr != nil) != (serr != nil):
			err = pbt.Errf("%q in %s: error %v, but examining %q gives %v", p, real, rerr, abs, serr)
		case dir+base+ext != abs:
			err = pbt.Errf("%q in %s: parts %q, %q, %q, expected to make up %q", p, real, dir, base, ext, abs)
		case !strings.HasSuffix(dir, "/"):
			err = pbt.Errf("%q in %s: directory %q does not end in a separator", p, real, dir)
		case dir != abs[:len(abs)-len(final)] || ext != wantExt:
			err = pbt.Errf("%q in %s: parts %q, %q, %q, the final element is %q", p, real, dir, base, ext, final)
		}
	})
	if err != nil {
		return err
	}
	if created, changed := differences(before, snapshot(top)); len(created)+len(changed) > 0 {
		return pbt.Errf("resolving %q created %q and changed %q", c.Path, created, changed)
	}
	return nil
}

// ---------------------------------------------------------------- P01

type p01Case struct {
	Entries []entry
	Domain  string
	File    string
	Again   int
	NoCwd   bool // the working directory has been removed
	Env     bool // variables name other directories
}

var p01Names = []string{"opencorpora", "dict", "a", "b", ".data", "d.x", "OpenCorpora", "A", "ДОМЕН", " a", "a ", "~", "$HOME", "a\\b", "%41", "*"}

// Variables programs take directories from; none has a say here.
var p01Variables = []string{
	"HOME", "XDG_DATA_HOME", "XDG_DATA_DIRS", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_STATE_HOME", "TMPDIR", "TMP", "TEMP", "APPDATA", "LOCALAPPDATA", "PWD", "USERPROFILE",
	"DATA", "DATA_PATH", "DATA_DIR", "DATAPATH", "DATADIR", "DATA_ROOT", "DATA_HOME",
	"GOMORPHY", "GOMORPHY_DATA", "GOMORPHY_DATA_PATH", "GOMORPHY_DATA_DIR", "GOMORPHY_DATADIR", "GOMORPHY_HOME", "GOMORPHY_PATH", "GOMORPHY_ROOT",
}

func p01() pbt.Property {
	return pbt.Property{
		ID: "P01",
		Rule: "cases are a tree around the working directory (with files and links in the way or directories with content), a domain and a file name in clean and unclean forms; " +
			"non-trivial: a domain with a name in it",
		Shards:      4,
		Assumptions: []string{"run as root, so nothing is unwritable for lack of permission"},
		Facets: []pbt.Facet{
			pbt.Rapid("paths", 10000, 200000, func(t *rapid.T) p01Case {
				var c p01Case
				path := rapid.OneOf(
					rapid.SampledFrom(p01Names), rapid.SampledFrom(p01Names),
					rapid.SampledFrom([]string{"", ".", "..", "a/b", "a/../b", "../out", "/a", "a/", "a//b", "./a", "../.data/a", "a/b/c", "домен", "a b", "../../up"}),
					genRelPath(p01Names, 3),
				)
				c.Domain = path.Draw(t, "domain")
				c.File = path.Draw(t, "file")
				c.Entries = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) entry {
					e := entry{Kind: rapid.SampledFrom([]string{"dir", "file", "file", "link"}).Draw(t, "kind")}
					e.Path = "x/y/" + rapid.SampledFrom([]string{
						".data", ".data/" + clean("/"+c.Domain), ".data/" + clean("/"+c.Domain) + "/dict.xml", ".data/other/f", ".data/a", ".data/a/b",
						"../.data/opencorpora/index.bin", "../.data/" + clean("/"+c.Domain), "../../.data/f", "data/opencorpora/f", "../data/f", "../go.mod", "go.mod",
						".data/opencorpora", ".data/opencorpora/index.bin", "file", "real/f", clean("/" + c.Domain),
					}).Draw(t, "path")
					if e.Kind == "link" {
						e.To = rapid.SampledFrom([]string{"real", "../real", "nowhere", "file", "../file", "."}).Draw(t, "to")
					}
					return e
				}), 0, 5).Draw(t, "entries")
				c.Again = rapid.IntRange(0, 2).Draw(t, "again")
				c.NoCwd = rapid.IntRange(0, 30).Draw(t, "no cwd") == 0
				c.Env = rapid.Bool().Draw(t, "env")
				return c
			}, p01Run),
			pbt.Enum("special", func(tier string, yield func(p01Case) bool) {
				for _, d := range []string{"", "opencorpora", strings.Repeat("n", 300), "a\x00b", strings.Repeat("d/", 120), "a/" + strings.Repeat("n", 256), "opencorpora/"} {
					for _, entries := range [][]entry{
						nil,
						{{Path: "x/y/.data", Kind: "file"}},
						{{Path: "x/y/.data/opencorpora", Kind: "file"}},
						{{Path: "x/y/.data/opencorpora/dict.xml", Kind: "file"}, {Path: "x/y/.data/opencorpora/index.bin", Kind: "file"}},
						{{Path: "x/y/.data/opencorpora", Kind: "link", To: "nowhere"}},
						{{Path: "x/y/.data", Kind: "link", To: "nowhere"}},
						{{Path: "x/y/real/opencorpora/f", Kind: "file"}, {Path: "x/y/.data", Kind: "link", To: "real"}},
					} {
						for _, noCwd := range []bool{false, true} {
							if !yield(p01Case{Entries: entries, Domain: d, File: "index.bin", Again: 1, NoCwd: noCwd}) {
								return
							}
						}
					}
				}
			}, p01Run),
		},
	}
}

func p01Run(ctx *pbt.Ctx, c p01Case) (err error) {
	top := ctx.Scratch()
	cwd := filepath.Join(top, "x", "y")
	pbt.Must(os.MkdirAll(cwd, 0o755))
	build(top, c.Entries)
	if c.Env {
		for _, name := range p01Variables {
			old, was := os.LookupEnv(name)
			pbt.Must(os.Setenv(name, filepath.Join(top, "elsewhere")))
			defer func(name string) {
				if was {
					pbt.Must(os.Setenv(name, old))
				} else {
					pbt.Must(os.Unsetenv(name))
				}
			}(name)
		}
		ctx.Label("variables set")
	}
	before := snapshot(top)

	wantDomain := clean(".data/" + c.Domain)
	wantFile := clean(wantDomain + "/" + c.File)
	if c.Domain == "" {
		wantFile = clean(".data/" + c.File)
	}
	ctx.NonTrivialIf(strings.Trim(c.Domain, "./") != "")
	target := clean(cwd + "/" + wantDomain)
	if target != top && !strings.HasPrefix(target, top+"/") {
		return nil // would leave the scratch directory: not tried
	}
	if c.NoCwd {
		return p01NoCwd(ctx, c, cwd)
	}
	inDir(cwd, func() {
		for round := 0; round <= c.Again && err == nil; round++ {
			ctx.Exec(3)
			if got := common.DomainDataPath(c.Domain); got != wantDomain {
				err = pbt.Errf("the data path of domain %q is %q, expected %q", c.Domain, got, wantDomain)
				return
			}
			if got := common.DomainFilePath(c.Domain, c.File); got != wantFile {
				err = pbt.Errf("the path of file %q of domain %q is %q, expected %q", c.File, c.Domain, got, wantFile)
				return
			}
			if created, changed := differences(before, snapshot(top)); round == 0 && len(created)+len(changed) > 0 {
				err = pbt.Errf("asking for paths created %q and changed %q", created, changed)
				return
			}
			long := time.Unix(1000000000, 0)
			was := false
			if info, serr := os.Stat(target); serr == nil && info.IsDir() {
				was = os.Chtimes(target, long, long) == nil
			}
			merr := common.MakeDomainDataPath(c.Domain)
			info, serr := os.Stat(target)
			exists := serr == nil && info.IsDir()
			ctx.LabelIf(merr != nil, "something in the way")
			ctx.LabelIf(merr == nil && round > 0, "made again")
			after := snapshot(top)
			created, changed := differences(before, after)
			switch {
			case merr == nil && !exists:
				err = pbt.Errf("making the data path of %q: no error, but %s is not a directory (%v)", c.Domain, wantDomain, serr)
			case merr == nil && info.Mode().Perm()&0o700 != 0o700:
				err = pbt.Errf("making the data path of %q: directory mode %v", c.Domain, info.Mode())
			case merr != nil && exists:
				err = pbt.Errf("making the data path of %q: %v, though %s is a directory", c.Domain, merr, wantDomain)
			case merr != nil && !obstructed(cwd, wantDomain):
				err = pbt.Errf("making the data path of %q: %v, though nothing is in the way", c.Domain, merr)
			case len(changed) > 0:
				err = pbt.Errf("making the data path of %q changed %q", c.Domain, changed)
			case was && !info.ModTime().Equal(long):
				err = pbt.Errf("making the data path of %q, which is there, wrote something in it or removed something from it", c.Domain)
			}
			if err != nil {
				return
			}
			for _, p := range created {
				if !onTheWay(top, filepath.Join(top, p), target) {
					err = pbt.Errf("making the data path of %q created %q", c.Domain, p)
					return
				}
				if after[p][0] != 'd' {
					err = pbt.Errf("making the data path of %q created %q as %q", c.Domain, p, after[p])
					return
				}
			}
		}
	})
	return err
}

// onTheWay tells if p is the target or a parent of it, links followed.
func onTheWay(top, p, target string) bool {
	resolve := func(q string) string {
		rest := ""
		for {
			if r, err := filepath.EvalSymlinks(q); err == nil {
				return filepath.Join(r, rest)
			}
			rest = filepath.Join(filepath.Base(q), rest)
			q = filepath.Dir(q)
		}
	}
	rp, rt := resolve(p), resolve(target)
	return rp == rt || strings.HasPrefix(rt, rp+"/")
}

// obstructed tells if some part of the way to rel is there but no directory, or cannot be named.
func obstructed(cwd, rel string) bool {
	p := cwd
	for _, part := range strings.Split(rel, "/") {
		if len(part) > 255 || strings.ContainsRune(part, 0) {
			return true
		}
		p = filepath.Join(p, part)
		if _, err := os.Lstat(p); err != nil {
			continue
		}
		if info, err := os.Stat(p); err != nil || !info.IsDir() {
			return true
		}
	}
	return false
}

func p01NoCwd(ctx *pbt.Ctx, c p01Case, cwd string) error {
	gone := filepath.Join(filepath.Dir(cwd), "gone")
	pbt.Must(os.Mkdir(gone, 0o755))
	before := snapshot(filepath.Dir(filepath.Dir(cwd)))
	var merr error
	inDir(gone, func() {
		pbt.Must(os.Remove(gone))
		defer func() { pbt.Must(os.Mkdir(gone, 0o755)) }()
		ctx.Exec(1)
		merr = common.MakeDomainDataPath(c.Domain)
	})
	ctx.Label("working directory removed")
	if merr == nil {
		return pbt.Errf("making the data path of %q in a removed working directory: no error", c.Domain)
	}
	if created, changed := differences(before, snapshot(filepath.Dir(filepath.Dir(cwd)))); len(created)+len(changed) > 0 {
		return pbt.Errf("making the data path of %q in a removed working directory created %q and changed %q", c.Domain, created, changed)
	}
	return nil
}

// ---------------------------------------------------------------- D05

type d05Case struct {
	Tags  []name
	IDs   []mapEntry
	Nodes []nodeEntry
}

type mapEntry struct {
	Letter int32
	ID     uint32
}

type nodeEntry struct {
	Letter int32
	Text   string
	Nil    bool
}

type fakeNode struct{ text string }

func (f fakeNode) String() string                 { return f.text }
func (f fakeNode) TagSets() []dag.TagSet          { return nil }
func (f fakeNode) AddTagSet(...dag.TagName) error { return nil }
func (f fakeNode) Word() string                   { return f.text }

func genLetter(t *rapid.T) int32 {
	switch rapid.IntRange(0, 5).Draw(t, "letter kind") {
	case 0:
		return rapid.SampledFrom([]int32{0, '`', ':', ',', '(', ')', '%', '\n', 0x7f, 0x80, 0xd800, 0xdfff, 0xfffd, 0xffff, 0x10ffff, 0x110000, -1, -0x80000000, 0x7fffffff, 0x301}).Draw(t, "special")
	case 1:
		return rapid.Int32().Draw(t, "any")
	case 2:
		return rapid.Int32Range('а', 'я').Draw(t, "cyrillic")
	default:
		return rapid.Int32Range('a', 'n').Draw(t, "latin")
	}
}

func d05() pbt.Property {
	return pbt.Property{
		ID: "D05",
		Rule: "cases are a list of tag names, a map of letters to ids and one to nodes, of 0 to 14 entries each (sizes around 10 often), letters including invalid ones; " +
			"non-trivial: at least one tag and one map entry",
		Shards:      4,
		Assumptions: []string{"the order of entries in the text of a map is not specified"},
		Facets: []pbt.Facet{
			pbt.Rapid("texts", 15000, 400000, func(t *rapid.T) d05Case {
				var c d05Case
				c.Tags = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) name { return genName(t, "name") }), 0, 14).Draw(t, "tags")
				size := rapid.OneOf(rapid.IntRange(0, 14), rapid.IntRange(8, 11))
				n := size.Draw(t, "ids")
				seen := map[int32]bool{}
				for tries := 0; len(c.IDs) < n && tries < 60; tries++ {
					if l := genLetter(t); !seen[l] {
						seen[l] = true
						c.IDs = append(c.IDs, mapEntry{l, rapid.OneOf(rapid.Uint32Range(0, 20), rapid.Uint32()).Draw(t, "id")})
					}
				}
				n = size.Draw(t, "nodes")
				seen = map[int32]bool{}
				for tries := 0; len(c.Nodes) < n && tries < 60; tries++ {
					if l := genLetter(t); !seen[l] {
						seen[l] = true
						c.Nodes = append(c.Nodes, nodeEntry{l, rapid.SampledFrom([]string{"Node([a])", "Node(a[b]c)", "", ",", "`x`:1", "%v", "яю"}).Draw(t, "text"), rapid.IntRange(0, 20).Draw(t, "nil") == 0})
					}
				}
				return c
			}, d05Run),
			pbt.Enum("many", func(tier string, yield func(d05Case) bool) {
				for _, n := range []int{1, 2, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 300, 1000, 65535, 65537, 70000} {
					var c d05Case
					for i := 0; i < n; i++ {
						c.Tags = append(c.Tags, mkName(fmt.Sprintf("%04x", i)))
						if i < 1000 {
							c.IDs = append(c.IDs, mapEntry{int32('a' + i), uint32(i)})
							c.Nodes = append(c.Nodes, nodeEntry{Letter: int32('a' + i), Text: "n"})
						}
					}
					if !yield(c) {
						return
					}
				}
			}, d05Run),
		},
	}
}

func d05Run(ctx *pbt.Ctx, c d05Case) error {
	ctx.NonTrivialIf(len(c.Tags) > 0 && len(c.IDs)+len(c.Nodes) > 0)
	ctx.Exec(4)
	var set dag.TagSet
	var names []string
	for i, n := range c.Tags {
		tag := dag.Tag{Parent: dag.TagName("p" + strconv.Itoa(i)), Name: dag.TagName(n.str())}
		set = append(set, tag)
		names = append(names, n.str())
		if tag.String() != n.str() || tag.Name.String() != n.str() {
			return pbt.Errf("tag %q has the text %q, its name %q", n.str(), tag.String(), tag.Name.String())
		}
		if made := dag.NewTag(tag.Parent, tag.Name); made.String() != n.str() || made.Parent != tag.Parent {
			return pbt.Errf("tag made of %q and %q is %q<-%q", tag.Parent, tag.Name, made.Parent, made.Name)
		}
	}
	if got, want := set.String(), strings.Join(names, ","); got != want {
		return pbt.Errf("tag set %q has the text %q", names, got)
	}
	for i, n := range c.Tags {
		if string(set[i].Name) != n.str() {
			return pbt.Errf("rendering changed tag %d to %q", i, set[i].Name)
		}
	}

	ids := dag.IdMap{}
	var want []string
	for _, e := range c.IDs {
		ids[e.Letter] = dag.ID(e.ID)
		want = append(want, fmt.Sprintf("`%s`:%d", string(e.Letter), e.ID))
	}
	ctx.Label("map of %d", len(ids))
	if err := checkMapText("map of ids", ids.String(), "IDMap(", want); err != nil {
		return err
	}
	if len(ids) != len(c.IDs) {
		return pbt.Errf("rendering left %d of %d entries", len(ids), len(c.IDs))
	}
	for _, e := range c.IDs {
		if ids[e.Letter] != dag.ID(e.ID) {
			return pbt.Errf("rendering changed the id of %q to %d", e.Letter, ids[e.Letter])
		}
	}

	nodes := dag.NodeMap{}
	want = nil
	for _, e := range c.Nodes {
		text := e.Text
		if e.Nil {
			nodes[e.Letter], text = nil, "<nil>"
		} else {
			nodes[e.Letter] = fakeNode{e.Text}
		}
		want = append(want, fmt.Sprintf("`%s`:%s", string(e.Letter), text))
	}
	if err := checkMapText("map of nodes", nodes.String(), "NodeMap(", want); err != nil {
		return err
	}
	if len(nodes) != len(c.Nodes) {
		return pbt.Errf("rendering left %d of %d entries", len(nodes), len(c.Nodes))
	}
	return nil
}

func checkMapText(what, got, prefix string, entries []string) error {
	if len(entries) >= 10 {
		if want := prefix + "len()=" + strconv.Itoa(len(entries)) + ")"; got != want {
			return pbt.Errf("%s of %d entries has the text %q, expected %q", what, len(entries), got, want)
		}
		return nil
	}
	body := strings.TrimPrefix(got, prefix)
	if body == got || !strings.HasSuffix(body, ")") {
		return pbt.Errf("%s has the text %q", what, got)
	}
	body = body[:len(body)-1]
	if !decomposes(body, entries, true) {
		return pbt.Errf("%s has the text %q, which is not a list of %q", what, got, entries)
	}
	return nil
}

// decomposes tells if text is all the entries, in some order, joined by commas.
func decomposes(text string, entries []string, first bool) bool {
	if len(entries) == 0 {
		return text == ""
	}
	if !first {
		if !strings.HasPrefix(text, ",") {
			return false
		}
		text = text[1:]
	}
	for i, e := range entries {
		if strings.HasPrefix(text, e) {
			rest := append(append([]string{}, entries[:i]...), entries[i+1:]...)
			if decomposes(text[len(e):], rest, false) {
				return true
			}
		}
	}
	return false
}
