package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"time"

	"github.com/amarin/gomorphy/pkg/opencorpora"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/tree"
	"github.com/amarin/gomorphy/verif/web"
)

// ---------------------------------------------------------------- large archives

// large is the same few words in archives of many megabytes: comments that can not be compressed are put before, in
// between or after them, so whatever is cut off an archive on its way is noticed.
type large struct {
	Edition int
	MB      int // of the archive, at least
	Where   int // the words are before, after or on both sides of the ballast
	Get     int // how the server sends it
	Failing int // first an update whose answer is cut in the middle
}

// ballast is an archive, of more than a megabyte, of XML comments.
var ballast []byte

func (l large) archive() []byte {
	if ballast == nil {
		noise := make([]byte, 780<<10)
		rand.New(rand.NewSource(17)).Read(noise)
		text := make([]byte, 0, 2<<20)
		text = append(text, "\n<!--"...)
		text = append(text, base64.StdEncoding.EncodeToString(noise)...)
		text = append(text, "-->\n"...)
		for len(ballast) < 1<<20 { // archives one after another are one
			ballast = append(ballast, pack(text, 9)...)
		}
	}
	e := editionNo(l.Edition)
	at := bytes.Index(e.xml, []byte([]string{"</dictionary>", "<lemmata>", "</lemmata>"}[l.Where%3]))
	if at < 0 {
		pbt.Must(fmt.Errorf("no place for ballast"))
	}
	res := append([]byte(nil), pack(e.xml[:at], 9)...)
	for len(res) <= l.MB<<20 {
		res = append(res, ballast...)
	}
	return append(res, pack(e.xml[at:], 9)...)
}

func runLarge(ctx *pbt.Ctx, l large) error {
	ctx.NonTrivial()
	ctx.Label("more than %d MB", l.MB)
	top := ctx.Scratch()
	cwd := filepath.Join(top, "cwd")
	pbt.Must(os.Mkdir(cwd, 0o755))
	dir := filepath.Join(top, "data")
	archive := l.archive()
	loader := opencorpora.NewLoader(dir)
	kinds := map[int]int{getChunked: web.Chunked, getToEnd: web.ToEnd}
	update := func(kind, cut int) (err error) {
		ctx.Exec(1)
		web.Start().Script(func(method string, _ int) web.Answer {
			return web.Answer{Kind: kind, Cut: cut, Status: 200, LM: issued(0).UTC().Format("Mon, 02 Jan 2006 15:04:05") + " GMT", Body: archive}
		})
		tree.In(cwd, func() { err = loader.Update(false) })
		return err
	}
	what := fmt.Sprintf("archive of %d bytes, %s", len(archive), getNames[l.Get])
	if l.Failing > 0 {
		if err := update(web.CutBody, len(archive)*l.Failing/1000); err == nil {
			return pbt.Errf("%s: succeeded though the answer was cut", what)
		}
	}
	for i := 0; i < 2; i++ {
		if err := update(kinds[l.Get], 0); err != nil {
			return pbt.Errf("%s: update %d: %v", what, i+1, err)
		}
		got, has := readIf(filepath.Join(dir, archiveName))
		if !bytes.Equal(got, archive) {
			return pbt.Errf("%s: update %d succeeded, but the archive kept is %s", what, i+1, describe(got, has))
		}
		compiled, has := readIf(filepath.Join(dir, compiledName))
		if !has {
			return pbt.Errf("%s: update %d succeeded without an index", what, i+1)
		}
		if err := editionNo(l.Edition).isCompiledOf(compiled); err != nil {
			return pbt.Errf("%s: update %d succeeded, but the index does not hold the dictionary: %v", what, i+1, err)
		}
	}
	return nil
}

func largeArchives() pbt.Facet {
	return pbt.Enum("large-archive", func(tier string, yield func(large) bool) {
		sizes := []int{1, 2, 4, 9, 17, 33}
		if tier == "thorough" {
			sizes = append(sizes, 65, 129)
		}
		for i, mb := range sizes {
			for get := getOK; get <= getToEnd; get++ {
				if tier != "thorough" && mb > 9 && get != i%3 {
					continue
				}
				if !yield(large{Edition: 4 + 4*(i%2), MB: mb, Where: i + get, Get: get, Failing: (i + get) % 3 * 400}) {
					return
				}
			}
		}
	}, runLarge)
}

// ---------------------------------------------------------------- within a second

// sudden is a dictionary replaced by another so soon that times of files differ by less than a second.
type sudden struct {
	First  int
	By     int  // how the archive is replaced: 0 download, 1 download and unpacking, 2 update
	Force  bool // the update after that
	Reused bool // by the same loader
}

func runSudden(ctx *pbt.Ctx, c sudden) error {
	ctx.NonTrivial()
	top := ctx.Scratch()
	loader := opencorpora.NewLoader(top)
	again := func() *opencorpora.Loader {
		if c.Reused {
			return loader
		}
		return opencorpora.NewLoader(top)
	}
	offer := func(issue, head int) {
		web.Start().Script((&updateStep{Head: head, Get: getNoDate}).answers(editionNo(c.First+4*issue), issue))
	}
	is := func(issue int, what string) error {
		got, ok := readIf(filepath.Join(top, compiledName))
		if !ok {
			return pbt.Errf("%s: no index", what)
		}
		if err := editionNo(c.First + 4*issue).isCompiledOf(got); err != nil {
			return pbt.Errf("%s: the index is not that of dictionary %d: %v", what, issue, err)
		}
		return nil
	}
	const apart = 40 * time.Millisecond // more than the granularity of times of files
	editionNo(c.First)
	editionNo(c.First + 4)
	next := time.Now().Truncate(time.Second).Add(time.Second)
	time.Sleep(time.Until(next))
	offer(0, headOK)
	ctx.Exec(3)
	if err := loader.Update(false); err != nil {
		return pbt.Errf("first update: %v", err)
	}
	if err := is(0, "first update"); err != nil {
		return err
	}
	time.Sleep(apart)
	offer(1, headBadDate)
	var err error
	switch c.By {
	case 0, 1:
		var updated bool
		if updated, err = again().DownloadUpdate(); err == nil && !updated {
			return pbt.Errf("not downloaded though the server's date can not be read")
		}
		if err == nil && c.By == 1 {
			time.Sleep(apart)
			err = again().UnpackUpdate()
		}
	case 2:
		err = again().Update(c.Force)
	}
	if err != nil {
		return pbt.Errf("replacing the archive: %v", err)
	}
	if c.By == 2 {
		if err = is(1, "update from a server with an unreadable date"); err != nil {
			return err
		}
	}
	time.Sleep(apart)
	offer(1, headNoDate)
	if err = again().Update(c.Force); err != nil {
		return pbt.Errf("last update: %v", err)
	}
	ctx.LabelIf(time.Now().Before(next.Add(time.Second)), "within a second")
	return is(1, "last update, after an archive had been downloaded since the one before")
}

func suddenChanges() pbt.Facet {
	return pbt.Enum("within-a-second", func(_ string, yield func(sudden) bool) {
		for i := 0; i < 12; i++ {
			if !yield(sudden{First: 4 + i%2, By: i / 2 % 3, Force: i >= 6, Reused: i/2%2 == 1}) {
				return
			}
		}
	}, runSudden)
}
