package main

import (
	"bytes"
	"fmt"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/xio"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- I11

// owner is what is done to one of several indexes.
type owner struct {
	H      history
	Rounds int // how often everything is asked at the end
}

func genOwner(t *rapid.T, earlier []owner) owner {
	c := genConfig{ops: 20, bulk: 60, odd: true, kinds: []string{"tag", "word", "attach", "attach", "attach", "attach", "optimise", "reload", "fetch", "root", "bulk", "save", "revert"}}
	o := owner{H: genHistory(t, c), Rounds: rapid.IntRange(1, 2).Draw(t, "rounds")}
	if len(earlier) > 0 && rapid.IntRange(0, 2).Draw(t, "another pool") > 0 { // the same words and tags, in another order
		h := earlier[rapid.IntRange(0, len(earlier)-1).Draw(t, "pool of")].H
		o.H.Words = append(append([][]rune(nil), h.Words[1:]...), h.Words[0])
		o.H.Tags = nil
		for i := len(h.Tags) - 1; i >= 0; i-- {
			o.H.Tags = append(o.H.Tags, h.Tags[i])
		}
	}
	return o
}

func (o owner) run(ctx *pbt.Ctx) error {
	e := newEngine(ctx, &o.H)
	if err := e.run(); err != nil {
		return err
	}
	for i := 0; i < o.Rounds; i++ {
		ctx.Turn()
		if err := e.m.everything(e.idx, 0); err != nil {
			return err
		}
	}
	ctx.Turn()
	for _, hd := range e.handles {
		if err := e.m.is(hd.node, hd.id); err != nil {
			return pbt.Errf("a node kept from earlier: %v", err)
		}
		if err := e.m.tagSetsOf(hd.node, hd.id); err != nil {
			return pbt.Errf("a node kept from earlier: %v", err)
		}
	}
	var out bytes.Buffer
	if err := e.idx.BinaryWriteTo(binutils.NewBinaryWriter(xio.Turning{Turn: ctx.Turn, W: &out})); err != nil {
		return pbt.Errf("writing: %v", err)
	}
	f, err := parse(out.Bytes())
	if err != nil {
		return pbt.Errf("the file written does not have the layout: %v", err)
	}
	if err = e.m.same(f); err != nil {
		return pbt.Errf("the file written: %v", err)
	}
	again := index.New()
	if err = again.BinaryReadFrom(binutils.NewBinaryReader(xio.Turning{Turn: ctx.Turn, R: bytes.NewReader(out.Bytes())})); err != nil {
		return pbt.Errf("reading back: %v", err)
	}
	if err = e.m.everything(again, 0); err != nil {
		return pbt.Errf("read back: %v", err)
	}
	e.labels(ctx)
	ctx.NonTrivialIf(e.rich())
	ctx.Exec(len(o.H.Ops))
	return nil
}

// lent is a history in which everything given to and taken from the index is written over afterwards.
type lent struct{ H history }

const scribble = 'ж'

func runLent(ctx *pbt.Ctx, c lent) error {
	e := newEngine(ctx, &c.H)
	junk := dag.Tag{Parent: "JUNK", Name: "JUNK"}
	spoil := func(n dag.Node, id int) error {
		if n == nil {
			return nil
		}
		for k, set := range n.TagSets() {
			for i := range set {
				if (id+k)%2 == 0 {
					set[i] = junk
				} else {
					set[i].Parent = "JUNK"
				}
			}
			_ = append(set, junk)
		}
		sets := n.TagSets()
		for i := range sets {
			sets[i] = dag.TagSet{junk}
		}
		_ = append(sets, dag.TagSet{junk})
		kids := []dag.NodeMap{e.idx.GetChildrenMap(dag.ID(id)), e.idx.GetChildrenMap(dag.ID(e.m.nodes[id].parent)), e.idx.Children()}
		for _, m := range kids {
			for letter := range m {
				if letter%2 == 0 {
					delete(m, letter)
				} else {
					m[letter] = nil
				}
			}
			if m != nil {
				m[scribble] = n
			}
		}
		item := e.idx.GetItem(dag.ID(id)).Item()
		item.Letter, item.Variants, item.Parent = scribble, 0, 0
		ctx.Exec(3)
		return nil
	}
	for i, o := range c.H.Ops {
		err := func() error {
			switch o.K {
			case "word":
				w := append(make([]rune, 0, 20), c.H.opWord(o)...)
				if len(w) == 0 {
					return nil
				}
				given := append([]rune(nil), w...)
				n, err := e.idx.AddRunes(w)
				if err != nil {
					return pbt.Errf("adding %q: %v", string(w), err)
				}
				if !equalRunes(w, given) {
					return pbt.Errf("adding %q changed the letters given to %q", string(given), string(w))
				}
				id := e.m.addTo(0, given)
				for j := range w {
					w[j] = scribble
				}
				_ = append(w, scribble)
				e.keep(n, id)
				if err = e.m.is(n, id); err != nil {
					return err
				}
				return spoil(n, id)
			case "attach":
				id, ok := e.m.find(c.H.opWord(o))
				if !ok || id == 0 {
					return nil
				}
				n, err := e.idx.FetchRunes(c.H.opWord(o))
				if err != nil {
					return pbt.Errf("lookup of %q: %v", string(c.H.opWord(o)), err)
				}
				names := make([]dag.TagName, 0, len(o.T)+3)
				var ids []int
				for _, t := range o.T {
					if t >= 0 && t < len(c.H.Tags) {
						name := dag.TagName(c.H.Tags[t].Name)
						if tagID, ok := e.m.ids[name]; ok {
							names = append(names, name)
							ids = append(ids, tagID)
						}
					}
				}
				given := append([]dag.TagName(nil), names...)
				if err = n.AddTagSet(names...); err != nil {
					return pbt.Errf("attaching %q: %v", names, err)
				}
				if fmt.Sprint(names) != fmt.Sprint(given) {
					return pbt.Errf("attaching %q changed the names given to %q", given, names)
				}
				if len(ids) > 0 {
					e.m.nodes[id].sets[setKey(ids)] = true
				}
				for j := range names {
					names[j] = "JUNK"
				}
				return spoil(n, id)
			case "reload": // the bytes are the caller's too
				data, err := dump(e.idx)
				if err != nil {
					return pbt.Errf("writing: %v", err)
				}
				into := index.New()
				if err = load(into, data); err != nil {
					return pbt.Errf("reading back: %v", err)
				}
				for j := range data {
					data[j] = 0xd6
				}
				e.idx, e.handles = into, nil
				return nil
			}
			return e.step(o)
		}()
		if err != nil {
			return fmt.Errorf("step %d (%s): %w", i, o.K, err)
		}
	}
	for _, hd := range e.handles {
		if err := e.m.tagSetsOf(hd.node, hd.id); err != nil {
			return err
		}
	}
	e.labels(ctx)
	ctx.NonTrivialIf(e.rich())
	return e.m.everything(e.idx, 0)
}

func i11() pbt.Property {
	run := func(ctx *pbt.Ctx, o owner) error { return o.run(ctx) }
	return pbt.Property{
		ID:   "I11",
		Race: true,
		Rule: "cases are 2 to 4 histories, each on an index of its own, and the order in which they take turns (after every step, and within every read and write of their files); " +
			"or one history in which everything given and taken is written over afterwards; non-trivial: at least two (the one) of the indexes have a node with several children and a word with several tag sets",
		Assumptions: append([]string{"data races are those the race detector of Go sees in the executions made",
			"what an index lends, not gives, is left alone: GetChildrenIDMap, Tags, TagSetIndex, Variants"}, histAssumptions...),
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.InTurns("in-turns", 1600, 40000, 3, genOwner, run),
			pbt.AtOnce("at-once", 1600, 40000, 4, genOwner, run),
			pbt.Rapid("lent", 2000, 50000, func(t *rapid.T) lent {
				return lent{genHistory(t, genConfig{ops: 30, odd: true, kinds: []string{"tag", "word", "word", "attach", "attach", "attach", "attach", "reload", "optimise", "fetch"}})}
			}, runLent),
		},
	}
}
