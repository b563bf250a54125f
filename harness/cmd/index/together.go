package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"github.com/amarin/gomorphy/verif/pbt"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- O10

// directory is what one owner does, one after another, in a data directory of its own.
type directory struct {
	Dicts  []compiled // the dictionaries that come there
	Packed []bool     // those that come as an archive
	Late   bool       // every index loaded is asked again at the end
}

func genDirectory(t *rapid.T, earlier []directory) directory {
	var d directory
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "dictionaries"); i < n; i++ {
		c := compiled{genDict(t, 6), genStyle(t), genStyle(t)}
		if len(earlier) > 0 && rapid.IntRange(0, 2).Draw(t, "related") > 0 {
			other := earlier[rapid.IntRange(0, len(earlier)-1).Draw(t, "owner")].Dicts
			c.Dict = related(t, other[rapid.IntRange(0, len(other)-1).Draw(t, "dictionary")].Dict)
		} else if i > 0 && rapid.Bool().Draw(t, "from the one before") {
			c.Dict = related(t, d.Dicts[i-1].Dict)
		}
		d.Dicts = append(d.Dicts, c)
		d.Packed = append(d.Packed, rapid.IntRange(0, 3).Draw(t, "packed") == 0)
	}
	d.Late = rapid.Bool().Draw(t, "late")
	return d
}

// related is a dictionary of the same tags and words in another order, some of them missing.
func related(t *rapid.T, d dictSpec) (r dictSpec) {
	r = d
	r.Tags = append([]tagDef(nil), d.Tags...)
	r.Lemmas = nil
	for i := len(d.Lemmas) - 1; i >= 0; i-- {
		if len(d.Lemmas) < 2 || rapid.IntRange(0, 3).Draw(t, "stays") > 0 {
			r.Lemmas = append(r.Lemmas, d.Lemmas[i])
		}
	}
	return r
}

func (d directory) run(ctx *pbt.Ctx) error {
	dir := ctx.Scratch()
	type kept struct {
		idx *index.Index
		m   *model
	}
	var earlier []kept
	for i, c := range d.Dicts {
		if i < len(d.Packed) && d.Packed[i] {
			ctx.Label("unpacked")
			text := c.Dict.bytes(c.Style)
			writeFile(filepath.Join(dir, archiveName), pack(text, 1))
			ctx.Turn()
			if err := opencorpora.NewLoader(dir).UnpackUpdate(); err != nil {
				return pbt.Errf("unpacking: %v", err)
			}
			ctx.Turn()
			if got, ok := readIf(filepath.Join(dir, unpackedName)); !ok || !bytes.Equal(got, text) {
				return pbt.Errf("unpacked to %s, not to the %d bytes packed", describe(got, ok), len(text))
			}
		}
		if err := runCompile(0)(ctx, c); err != nil {
			return fmt.Errorf("dictionary %d: %w", i, err)
		}
		if !d.Late {
			continue
		}
		idx, err := opencorpora.NewLoader(dir).LoadIndex()
		if err != nil {
			return pbt.Errf("dictionary %d: loading: %v", i, err)
		}
		earlier = append(earlier, kept{idx, c.Dict.model()})
		ctx.Turn()
		mine, err := opencorpora.NewLoader(dir).LoadIndex() // another copy, for changes
		if err != nil {
			return pbt.Errf("dictionary %d: loading again: %v", i, err)
		}
		ctx.Turn()
		for id := 1; id <= mine.NodesCount() && mine.Tags().Len() > 0; id += 2 {
			if err = mine.GetItem(dag.ID(id)).AddTagSet(mine.Tags()[0].Name); err != nil {
				return pbt.Errf("extending what was loaded: %v", err)
			}
		}
		if _, err = mine.AddString("новое"); err != nil {
			return pbt.Errf("extending what was loaded: %v", err)
		}
		mine.Optimize()
	}
	if idx, err := opencorpora.NewLoader(dir).LoadIndex(); err != nil {
		return pbt.Errf("loading after all: %v", err)
	} else if err = d.Dicts[len(d.Dicts)-1].Dict.model().sameContent(idx, 0); err != nil {
		return pbt.Errf("loaded after all: %v", err)
	}
	for i, k := range earlier {
		if err := k.m.sameContent(k.idx, 0); err != nil {
			return pbt.Errf("asked after all, the index of dictionary %d: %v", i, err)
		}
		ctx.Turn()
	}
	if n := len(earlier); n > 1 { // save an older one again
		ctx.Label("an older one saved")
		to := filepath.Join(dir, "again")
		pbt.Must(os.MkdirAll(to, 0o755))
		if err := opencorpora.NewLoader(to).SaveIndex(earlier[0].idx, filepath.Join(to, compiledName)); err != nil {
			return pbt.Errf("saving: %v", err)
		}
		ctx.Turn()
		idx, err := opencorpora.NewLoader(to).LoadIndex()
		if err != nil {
			return pbt.Errf("loading what was saved: %v", err)
		}
		if err = earlier[0].m.sameContent(idx, 0); err != nil {
			return pbt.Errf("saved in another directory and loaded, the index of dictionary 0: %v", err)
		}
	}
	return nil
}

func o10() pbt.Property {
	run := func(ctx *pbt.Ctx, d directory) error { return d.run(ctx) }
	return pbt.Property{
		ID:   "O10",
		Race: true,
		Rule: "cases are 2 to 4 data directories, each with up to 3 dictionaries that come there one after another, and the order in which they take turns (after every operation); " +
			"non-trivial: at least two of them have a dictionary with 3 words with tags",
		Assumptions: append([]string{"data races are those the race detector of Go sees in the executions made"}, o01().Assumptions...),
		Shards:      4,
		Facets: []pbt.Facet{
			pbt.InTurns("in-turns", 500, 16000, 3, genDirectory, run),
			pbt.AtOnce("at-once", 500, 16000, 4, genDirectory, run),
		},
	}
}
