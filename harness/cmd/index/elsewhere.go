package main

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"

	"github.com/amarin/gomorphy/pkg/opencorpora"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/tree"

	"pgregory.net/rapid"
)

// elsewhere is a dictionary compiled from a file, to a file, the caller names.
type elsewhere struct {
	Dict     dictSpec
	From, To int  // of the places below
	Decoys   int  // what the data directory holds: 1 a dictionary, 2 an index
	Broken   bool // the dictionary is cut short
	Before   bool // there is an index already
}

// Names are from the working directory, DIR is the data directory.
var elsewheres = []string{"dict.xml", "DIR/other.xml", "sub/" + unpackedName, "../above", "ABS/abs dir/x", "sub/" + compiledName, "DIR/sub/file"}

func runElsewhere(ctx *pbt.Ctx, c elsewhere) error {
	ctx.NonTrivial()
	top := ctx.Scratch()
	cwd := filepath.Join(top, "work", "cwd")
	dir := filepath.Join(top, "data")
	for _, d := range []string{filepath.Join(cwd, "sub"), filepath.Join(dir, "sub"), filepath.Join(top, "abs dir"), filepath.Join(top, "plain")} {
		pbt.Must(os.MkdirAll(d, 0o755))
	}
	name := func(n int, end string) (given, abs string) {
		given = strings.NewReplacer("DIR", dir, "ABS", top).Replace(elsewheres[n]) + end
		if abs = given; !filepath.IsAbs(abs) {
			abs = filepath.Join(cwd, given)
		}
		return given, abs
	}
	from, fromAbs := name(c.From%len(elsewheres), "")
	to, toAbs := name(c.To%len(elsewheres), ".to")
	ctx.Label("from %s", elsewheres[c.From%len(elsewheres)])
	text := c.Dict.bytes(nil)
	plain := filepath.Join(top, "plain")
	if err := compile(plain, text); err != nil {
		return pbt.Errf("compiling failed: %v\n%s", err, clip(text))
	}
	want, _ := readIf(filepath.Join(plain, compiledName))
	if c.Broken {
		text = text[:bytes.LastIndex(text, []byte("</dictionary"))]
	}
	writeFile(fromAbs, text)
	other := editionNo(4)
	if c.Decoys&1 != 0 {
		writeFile(filepath.Join(dir, unpackedName), other.xml)
		if !filepath.IsAbs(from) { // and of the same name as the one to be compiled
			writeFile(filepath.Join(dir, from), other.xml)
		}
	}
	if c.Decoys&2 != 0 {
		writeFile(filepath.Join(dir, compiledName), other.dat)
	}
	if c.Before {
		writeFile(toAbs, other.dat)
	}
	rel, err := filepath.Rel(top, toAbs)
	pbt.Must(err)
	before := tree.Snapshot(top)
	ctx.Exec(1)
	tree.In(cwd, func() { err = opencorpora.NewLoader(dir).ParseUpdate(from, to) })
	after := tree.Snapshot(top)
	if c.Broken {
		rel = "."
		if err == nil {
			return pbt.Errf("compiling %q to %q: no error though the dictionary is cut short", from, to)
		}
	} else if err != nil {
		return pbt.Errf("compiling %q to %q: %v", from, to, err)
	}
	if d := tree.Diff(before, after, rel); len(d) > 0 {
		return pbt.Errf("compiling %q to %q (%v): %s", from, to, err, strings.Join(d, ", "))
	}
	if c.Broken {
		return nil
	}
	if got, ok := readIf(toAbs); !bytes.Equal(got, want) {
		return pbt.Errf("compiling %q to %q: there is %s, not the index of this dictionary", from, to, describe(got, ok))
	}
	return nil
}

func compiledElsewhere() pbt.Facet {
	return pbt.Rapid("elsewhere", 400, 8000, func(t *rapid.T) elsewhere {
		return elsewhere{Dict: genDict(t, 3), From: rapid.IntRange(0, len(elsewheres)-1).Draw(t, "from"), To: rapid.IntRange(0, len(elsewheres)-1).Draw(t, "to"),
			Decoys: rapid.IntRange(0, 3).Draw(t, "decoys"), Broken: rapid.IntRange(0, 3).Draw(t, "broken") == 3, Before: rapid.Bool().Draw(t, "before")}
	}, runElsewhere)
}
