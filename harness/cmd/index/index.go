package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/pbt"

	"pgregory.net/rapid"
)

var histAssumptions = []string{
	"one goroutine changes an index at a time (concurrent lookups are I08)",
	"the caller does not alter what it passed in or was handed out",
	"words of up to a few dozen letters; nodes, tag sets and collections in the numbers given by the classes",
}

// bulkCase is a history dominated by one bulk addition.
func bulkHistory(n, seed int, after ...op) history {
	h := history{
		Tags:  []tagDef{{"NOUN", ""}, {"VERB", "POST"}, {"sing", "NMbr"}},
		Words: [][]rune{[]rune("аб"), []rune("abc"), []rune("ав"), []rune("я")},
		Ops: []op{
			{K: "tag", W: 0}, {K: "tag", W: 1}, {K: "tag", W: 2},
			{K: "attach", W: 0, T: []int{0}}, {K: "attach", W: 1, T: []int{1, 2}},
			{K: "bulk", N: n, Seed: seed},
			{K: "attach", W: 2, T: []int{0, 2}}, {K: "attach", W: 0, T: []int{2}}, {K: "word", W: 3},
		},
	}
	h.Ops = append(h.Ops, after...)
	return h
}

// bulkSizes are the sizes of the large cases.
func bulkSizes(tier string) []int {
	if tier == "thorough" {
		return []int{254, 255, 256, 257, 511, 1000, 2047, 4096, 20000, 65500, 66000, 100000, 300000}
	}
	return []int{255, 256, 3000, 70000}
}

func bulkCases(after ...op) func(string, func(history) bool) {
	return func(tier string, yield func(history) bool) {
		for i, n := range bulkSizes(tier) {
			if !yield(bulkHistory(n, i*3+1, after...)) {
				return
			}
		}
	}
}

// extremeCases are words with very many tag sets and very long words.
func extremeCases(sets, letters []int, after ...op) func(string, func(history) bool) {
	return func(tier string, yield func(history) bool) {
		base := bulkHistory(300, 4).Ops
		for i, n := range sets {
			h := bulkHistory(300, i)
			// one more and the same by another word on the way, so that collections are shared
			h.Ops = append(append([]op(nil), base...),
				op{K: "many", W: 0, N: n - 2, Seed: i}, op{K: "many", W: 2, N: n, Seed: i}, op{K: "many", W: 0, N: n, Seed: i})
			h.Ops = append(h.Ops, after...)
			if !yield(h) {
				return
			}
		}
		for i, n := range []int{16, 40, 254, 255} {
			if len(sets) == 0 {
				break
			}
			h := bulkHistory(300, i)
			h.Ops = append(append([]op(nil), base...), op{K: "lengths", W: 3, N: n})
			h.Ops = append(h.Ops, after...)
			if !yield(h) {
				return
			}
		}
		for i, n := range letters {
			if n > 2000 && tier != "thorough" {
				continue
			}
			h := bulkHistory(300, i)
			h.Ops = append(append([]op(nil), base...), op{K: "long", N: n, Seed: i}, op{K: "long", N: n, Seed: i + 1})
			h.Ops = append(h.Ops, after...)
			if !yield(h) {
				return
			}
		}
	}
}

var (
	manySets = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 253, 254, 255}
	tooMany  = append(append([]int(nil), manySets...), 256, 257, 300, 1000) // to be written
	longest  = []int{63, 64, 65, 127, 128, 255, 256, 257, 511, 1023, 1025, 2000, 5000}
)

// ---------------------------------------------------------------- I01

func i01() pbt.Property {
	cfg := genConfig{ops: 40, odd: true, names: true, kinds: []string{"tag", "word", "word", "attach", "attach", "attach", "attach", "fetch", "root"}}
	run := func(max int) func(*pbt.Ctx, history) error {
		return func(ctx *pbt.Ctx, h history) error {
			e := newEngine(ctx, &h)
			if err := e.run(); err != nil {
				return err
			}
			e.labels(ctx)
			ctx.NonTrivialIf(e.rich() && len(h.Ops) >= 5)
			ctx.Exec(len(h.Ops))
			if err := e.m.tagList(e.idx); err != nil {
				return err
			}
			if err := e.m.lookups(e.idx, max); err != nil {
				return err
			}
			for _, hd := range e.handles { // nodes kept from earlier answer for their word still
				if err := e.m.tagSetsOf(hd.node, hd.id); err != nil {
					return pbt.Errf("node kept from earlier: %v", err)
				}
			}
			return nil
		}
	}
	// the same words and tag sets in another order
	type reordered struct {
		H     history
		Order []int
	}
	return pbt.Property{
		ID:          "I01",
		Rule:        "a history of at least 5 steps after which some node has several children and some word several tag sets; for 'order' at least 4 attachments",
		Assumptions: histAssumptions,
		Shards:      4,
		Facets: []pbt.Facet{
			pbt.Rapid("history", 14400, 360000, func(t *rapid.T) history { return genHistory(t, cfg) }, run(0)),
			pbt.Rapid("bulk", 240, 9000, func(t *rapid.T) history {
				c := cfg
				c.ops, c.bulk, c.kinds = 8, 1200, []string{"bulk", "attach", "word", "attach"}
				return genHistory(t, c)
			}, run(300)),
			pbt.Enum("large", bulkCases(), run(20000)),
			pbt.Enum("many-sets", extremeCases(tooMany, nil), run(400)),
			pbt.Enum("long-words", extremeCases(nil, longest), run(60)),
			pbt.Enum("longest-words", longWords, runLongest(0)),
			pbt.Enum("huge", hugeCases, runHuge(0)),
			pbt.Enum("alike", alikeCases, runAlike(0)),
			pbt.Rapid("order", 2400, 72000, func(t *rapid.T) reordered {
				c := cfg
				c.kinds, c.ops = []string{"attach"}, 14
				h := genHistory(t, c)
				var attach []op
				var rest []op
				for i := range h.Tags {
					rest = append(rest, op{K: "tag", W: i})
				}
				for _, o := range h.Ops {
					if o.K == "attach" {
						attach = append(attach, o)
					}
				}
				perm := make([]int, len(attach))
				for i := range perm {
					perm[i] = i
				}
				perm = rapid.Permutation(perm).Draw(t, "order")
				h.Ops = append(rest, attach...)
				return reordered{h, perm}
			}, func(ctx *pbt.Ctx, c reordered) error {
				n := len(c.H.Ops) - len(c.Order)
				first := newEngine(ctx, &c.H)
				if err := first.run(); err != nil {
					return err
				}
				other := c.H
				other.Ops = append([]op(nil), c.H.Ops[:n]...)
				for _, i := range c.Order {
					if i >= len(c.Order) {
						return nil
					}
					o := c.H.Ops[n+i]
					if o.How%9 == 8 { // which node was kept depends on the order
						o.How = 1
					}
					other.Ops = append(other.Ops, o)
				}
				second := newEngine(ctx, &other)
				if err := second.run(); err != nil {
					return err
				}
				ctx.NonTrivialIf(len(c.Order) >= 4)
				if err := second.m.lookups(second.idx, 0); err != nil {
					return pbt.Errf("in another order: %v", err)
				}
				return first.m.lookups(first.idx, 0)
			}),
		},
	}
}

// ---------------------------------------------------------------- I02

func i02() pbt.Property {
	cfg := genConfig{ops: 40, odd: true, names: true, kinds: []string{"tag", "word", "word", "word", "attach", "attach", "fetch", "root"}}
	run := func(max int) func(*pbt.Ctx, history) error {
		return func(ctx *pbt.Ctx, h history) error {
			e := newEngine(ctx, &h)
			if err := e.run(); err != nil {
				return err
			}
			e.labels(ctx)
			ctx.NonTrivialIf(e.rich() && len(h.Ops) >= 5)
			ctx.Exec(len(h.Ops))
			if err := e.m.tree(e.idx, max); err != nil {
				return err
			}
			for _, hd := range e.handles {
				if err := e.m.is(hd.node, hd.id); err != nil {
					return pbt.Errf("node kept from earlier: %v", err)
				}
			}
			return nil
		}
	}
	// the tree holds after every step, loads and optimisations among them
	every := genConfig{ops: 12, odd: true, kinds: []string{"tag", "word", "word", "attach", "attach", "fetch", "reload", "optimise", "save", "revert"}}
	return pbt.Property{
		ID:          "I02",
		Rule:        "a history of at least 5 steps after which some node has several children and some word several tag sets",
		Assumptions: histAssumptions,
		Shards:      4,
		Facets: []pbt.Facet{
			pbt.Rapid("history", 12000, 300000, func(t *rapid.T) history { return genHistory(t, cfg) }, run(0)),
			pbt.Rapid("bulk", 240, 9000, func(t *rapid.T) history {
				c := cfg
				c.ops, c.bulk, c.kinds = 8, 1200, []string{"bulk", "attach", "word", "attach"}
				return genHistory(t, c)
			}, run(300)),
			pbt.Enum("large", bulkCases(), run(20000)),
			pbt.Enum("many-sets", extremeCases(tooMany, nil), run(400)),
			pbt.Enum("long-words", extremeCases(nil, longest), run(60)),
			pbt.Enum("longest-words", longWords, runLongest(1)),
			pbt.Enum("alike", alikeCases, runAlike(1)),
			pbt.Rapid("every-step", 3000, 90000, func(t *rapid.T) history { return genHistory(t, every) }, func(ctx *pbt.Ctx, h history) error {
				e := newEngine(ctx, &h)
				for i, o := range h.Ops {
					if err := e.step(o); err != nil {
						return fmt.Errorf("step %d (%s): %w", i, o.K, err)
					}
					if err := e.m.tree(e.idx, 0); err != nil {
						return fmt.Errorf("after step %d (%s): %w", i, o.K, err)
					}
				}
				e.labels(ctx)
				ctx.Exec(len(h.Ops))
				ctx.NonTrivialIf(e.rich() && len(h.Ops) >= 5)
				return nil
			}),
		},
	}
}

// ---------------------------------------------------------------- I03

// rounds saves and reloads at the end of a history and compares everything, then extends both.
type rounds struct {
	H      history
	Target int // see runRound
	Seed   int
	More   []op // what both are extended with
}

func runRound(max int) func(*pbt.Ctx, rounds) error {
	return func(ctx *pbt.Ctx, c rounds) error {
		e := newEngine(ctx, &c.H)
		if err := e.run(); err != nil {
			return err
		}
		before, err := e.m.contents(e.idx, max)
		if err != nil {
			return err
		}
		ids := numbers(e.idx, e.m.sampleNodes(max))
		data, err := dump(e.idx)
		if err != nil {
			return pbt.Errf("writing: %v", err)
		}
		if err = ids.same(e.idx); err != nil {
			return pbt.Errf("writing changed the index: %v", err)
		}
		target := index.New()
		switch c.Target % 7 {
		case 1:
			target = dirty(c.Seed)
		case 3:
			target = relative(e.m)
			ctx.Label("into an index of the same words")
		case 5:
			ctx.LabelIf(loadDamaged(target, data, c.Seed), "into an index a load into failed")
		case 2, 4, 6: // into one loaded before
			if err = load(target, data); err != nil {
				return pbt.Errf("reading back: %v", err)
			}
			if c.Target%7 == 4 {
				ctx.LabelIf(loadDamaged(target, data, c.Seed), "into an index a load into failed")
			}
			if c.Target%7 == 6 { // back to what was saved
				h := c.H
				h.Ops = c.More
				used := &engine{h: &h, idx: target, m: cloneModel(e.m), ctx: ctx}
				if err = used.run(); err != nil {
					return pbt.Errf("extending the reloaded, first time: %v", err)
				}
				ctx.Label("back to an earlier state")
			}
		}
		if err = load(target, data); err != nil {
			return pbt.Errf("reading back: %v", err)
		}
		if err = e.m.everything(target, max); err != nil {
			return pbt.Errf("reloaded: %v", err)
		}
		if err = ids.same(target); err != nil {
			return pbt.Errf("reloaded: %v", err)
		}
		after, err := e.m.contents(target, max)
		if err != nil {
			return pbt.Errf("reloaded: %v", err)
		}
		for id, want := range before {
			if fmt.Sprint(after[id]) != fmt.Sprint(want) {
				return pbt.Errf("tag sets of %q are %v after reloading, were %v", e.m.word(id), after[id], want)
			}
		}
		again, err := dump(target)
		if err != nil {
			return pbt.Errf("writing the reloaded index: %v", err)
		}
		if !bytes.Equal(again, data) {
			return pbt.Errf("written again, the index differs at byte %d of %d/%d", firstDiff(again, data), len(again), len(data))
		}
		if err = e.m.everything(e.idx, max); err != nil {
			return pbt.Errf("the original after writing: %v", err)
		}
		// extend both alike
		reloaded := &engine{h: &c.H, idx: target, m: cloneModel(e.m), ctx: ctx}
		e.handles = nil
		e.h.Ops, reloaded.bulk = c.More, e.bulk
		if err = e.run(); err != nil {
			return pbt.Errf("extending the original: %v", err)
		}
		if err = reloaded.run(); err != nil {
			return pbt.Errf("extending the reloaded: %v", err)
		}
		if err = reloaded.m.everything(target, max); err != nil {
			return pbt.Errf("the reloaded, extended: %v", err)
		}
		one, err := dump(e.idx)
		if err != nil {
			return pbt.Errf("writing the extended original: %v", err)
		}
		two, err := dump(target)
		if err != nil {
			return pbt.Errf("writing the extended reloaded: %v", err)
		}
		if !bytes.Equal(one, two) {
			return pbt.Errf("extended alike, original and reloaded differ at byte %d of %d/%d", firstDiff(one, two), len(one), len(two))
		}
		e.labels(ctx)
		ctx.LabelIf(c.Target%7 == 1, "into an index that held something else")
		ctx.LabelIf(len(c.More) > 0, "extended afterwards")
		ctx.NonTrivialIf(e.rich() && len(c.More) > 0)
		ctx.Exec(3)
		return nil
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// stored are the numbers an index uses: collections of nodes, tag sets of collections, tags of tag sets.
type stored struct {
	nodes       map[int]index.Item
	collections map[index.VariantID]string
	sets        string
}

func numbers(idx *index.Index, nodes []int) stored {
	res := stored{nodes: map[int]index.Item{}, collections: map[index.VariantID]string{}}
	for _, id := range nodes {
		res.nodes[id] = idx.GetItem(dag.ID(id)).Item()
	}
	for size, missing := 1, 0; missing < 300; size++ { // sizes may be missing between
		missing++
		for no := 0; ; no++ {
			id := index.VariantID(size<<16 | no)
			coll, err := idx.Variants(id)
			if err != nil {
				break
			}
			missing = 0
			res.collections[id] = fmt.Sprint(coll)
		}
	}
	res.sets = fmt.Sprint(idx.TagSetIndex())
	return res
}

func (s stored) same(idx *index.Index) error {
	var nodes []int
	for id := range s.nodes {
		nodes = append(nodes, id)
	}
	sort.Ints(nodes)
	now := numbers(idx, nodes)
	for _, id := range nodes {
		if now.nodes[id] != s.nodes[id] {
			return pbt.Errf("node %d is %+v, was %+v", id, now.nodes[id], s.nodes[id])
		}
	}
	for id, was := range s.collections {
		if now.collections[id] != was {
			return pbt.Errf("collection %#x is %q, was %q", id, now.collections[id], was)
		}
	}
	if len(now.collections) != len(s.collections) {
		return pbt.Errf("there are %d collections, were %d", len(now.collections), len(s.collections))
	}
	if now.sets != s.sets {
		return pbt.Errf("tag sets are %.300s, were %.300s", now.sets, s.sets)
	}
	return nil
}

func cloneModel(m *model) *model {
	res := &model{tags: append([]dag.Tag(nil), m.tags...), ids: map[dag.TagName]int{}, nodes: make([]mNode, len(m.nodes))}
	for k, v := range m.ids {
		res.ids[k] = v
	}
	for i, n := range m.nodes {
		c := mNode{parent: n.parent, letter: n.letter, children: make(map[rune]int, len(n.children)), sets: make(map[string]bool, len(n.sets))}
		for k, v := range n.children {
			c.children[k] = v
		}
		for k := range n.sets {
			c.sets[k] = true
		}
		res.nodes[i] = c
	}
	return res
}

func genRound(t *rapid.T, c genConfig, more int) rounds {
	h := genHistory(t, c)
	r := rounds{H: h, Target: rapid.IntRange(0, 6).Draw(t, "target"), Seed: rapid.IntRange(0, 9).Draw(t, "seed")}
	n := rapid.IntRange(0, more).Draw(t, "more")
	c.kinds = []string{"tag", "word", "attach", "attach", "attach", "fetch"}
	for i := 0; i < n; i++ {
		r.More = append(r.More, genOp(t, c, &r.H))
	}
	for i, o := range r.More { // kept nodes belong to the original
		if o.How%9 == 8 {
			r.More[i].How = 1
		}
	}
	return r
}

func i03() pbt.Property {
	cfg := genConfig{ops: 30, odd: true, kinds: []string{"tag", "word", "word", "attach", "attach", "attach", "attach", "reload", "optimise", "fetch", "save", "revert"}}
	return pbt.Property{
		ID:          "I03",
		Rule:        "the index has a node with several children and a word with several tag sets, and is extended after reloading",
		Assumptions: append([]string{"tag names of 4 bytes, the only ones the file can hold (others are D02 and I05)"}, histAssumptions...),
		Shards:      4,
		Facets: []pbt.Facet{
			pbt.Rapid("round", 9600, 240000, func(t *rapid.T) rounds { return genRound(t, cfg, 12) }, runRound(0)),
			pbt.Rapid("bulk", 240, 7200, func(t *rapid.T) rounds {
				c := cfg
				c.ops, c.bulk, c.kinds = 6, 800, []string{"bulk", "attach", "word", "attach", "reload", "optimise"}
				return genRound(t, c, 6)
			}, runRound(300)),
			pbt.Enum("large", func(tier string, yield func(rounds) bool) {
				for i, n := range bulkSizes(tier) {
					r := rounds{H: bulkHistory(n, i*3+1), Target: i, More: []op{{K: "attach", W: 0, T: []int{1}}, {K: "attach", W: 1, Cut: -1, T: []int{0, 2}}, {K: "word", W: 1, Cut: -2}}}
					if i%2 == 1 {
						r.H.Ops = append(r.H.Ops, op{K: "optimise"})
					}
					if !yield(r) {
						return
					}
				}
			}, runRound(20000)),
			pbt.Enum("many-sets", func(tier string, yield func(rounds) bool) {
				i := 0
				extremeCases(manySets, nil)(tier, func(h history) bool {
					i++
					if i%2 == 0 {
						h.Ops = append(h.Ops, op{K: "optimise"})
					}
					return yield(rounds{H: h, Target: i, More: []op{{K: "attach", W: 1, T: []int{1}}, {K: "attach", W: 1, Cut: -1, T: []int{0, 2}}, {K: "word", W: 0, Cut: -1}}})
				})
			}, runRound(400)),
			pbt.Enum("longest-words", longWords, runLongest(2)),
			pbt.Enum("huge", hugeCases, runHuge(2)),
			pbt.Enum("alike", alikeCases, runAlike(2)),
			pbt.Enum("long-words", func(tier string, yield func(rounds) bool) {
				i := 0
				extremeCases(nil, longest)(tier, func(h history) bool {
					i++
					if i%2 == 0 {
						h.Ops = append(h.Ops, op{K: "optimise"})
					}
					return yield(rounds{H: h, Target: i, More: []op{{K: "attach", W: 1, T: []int{1}}, {K: "attach", W: 1, Cut: -1, T: []int{0, 2}}, {K: "word", W: 0, Cut: -1}}})
				})
			}, runRound(30)),
		},
	}
}

// ---------------------------------------------------------------- I04

// tune optimises in the middle of a history and goes on.
type tune struct {
	H    history
	More []op
}

func runTune(max int) func(*pbt.Ctx, tune) error {
	return func(ctx *pbt.Ctx, c tune) error {
		e := newEngine(ctx, &c.H)
		if err := e.run(); err != nil {
			return err
		}
		if _, err := e.m.contents(e.idx, max); err != nil {
			return err
		}
		unused := 0
		before, berr := dump(e.idx)
		if berr != nil {
			return pbt.Errf("writing: %v", berr)
		}
		if f, err := parse(before); err == nil {
			unused = f.unusedCollections()
		}
		sets := fmt.Sprint(e.idx.TagSetIndex())
		e.idx.Optimize()
		if got := fmt.Sprint(e.idx.TagSetIndex()); got != sets {
			return pbt.Errf("tag sets after optimising are %.300s, were %.300s", got, sets)
		}
		if err := e.m.everything(e.idx, max); err != nil {
			return pbt.Errf("optimised: %v", err)
		}
		for _, hd := range e.handles {
			if err := e.m.tagSetsOf(hd.node, hd.id); err != nil {
				return pbt.Errf("optimised, node kept from earlier: %v", err)
			}
		}
		once, err := dump(e.idx)
		if err != nil {
			return pbt.Errf("writing the optimised index: %v", err)
		}
		f, err := parse(once)
		if err != nil {
			return pbt.Errf("the optimised index is written wrong: %v", err)
		}
		if n := f.unusedCollections(); n > 0 {
			return pbt.Errf("%d collections no word uses are left", n)
		}
		e.idx.Optimize()
		twice, err := dump(e.idx)
		if err != nil || !bytes.Equal(once, twice) {
			return pbt.Errf("optimising again changes the index (%v)", err)
		}
		reloaded := index.New()
		if err = load(reloaded, once); err != nil {
			return pbt.Errf("reading the optimised index: %v", err)
		}
		if err = e.m.everything(reloaded, max); err != nil {
			return pbt.Errf("optimised and reloaded: %v", err)
		}
		second := &engine{h: &c.H, idx: reloaded, m: cloneModel(e.m), ctx: ctx, bulk: e.bulk}
		e.h.Ops = c.More
		if err = e.run(); err != nil {
			return pbt.Errf("extending the optimised: %v", err)
		}
		if err = e.m.everything(e.idx, max); err != nil {
			return pbt.Errf("optimised and extended: %v", err)
		}
		if err = second.run(); err != nil {
			return pbt.Errf("extending the reloaded optimised: %v", err)
		}
		second.idx.Optimize()
		if err = second.m.everything(second.idx, max); err != nil {
			return pbt.Errf("optimised, reloaded, extended and optimised: %v", err)
		}
		e.labels(ctx)
		ctx.LabelIf(unused > 0, "unused collections removed")
		ctx.LabelIf(unused == 0, "nothing to remove")
		ctx.LabelIf(len(c.More) > 0, "extended afterwards")
		ctx.NonTrivialIf(unused > 0 && e.m.words() > 1)
		ctx.Exec(3)
		return nil
	}
}

// tuneFile optimises what a file holds, collections no word uses among it.
type tuneFile struct{ File fileSpec }

func runTuneFile(ctx *pbt.Ctx, c tuneFile) error { return tuneLoaded(ctx, c.File.build()) }

// manyUnused is a file with collections in tens of thousands, of which words use some, spread evenly.
type manyUnused struct{ Colls, Used int }

func (c manyUnused) build() *file {
	f := &file{Nodes: []fileNode{{}}, Sets: [][][]byte{nil, nil}}
	var ids []uint32
	for i := 0; i < 200; i++ {
		f.Tags = append(f.Tags, [2]string{"    ", fmt.Sprintf("t%03d", i)})
		f.Sets[0] = append(f.Sets[0], []byte{byte(i)})
		ids = append(ids, uint32(i))
	}
	for i := 0; i < 180; i++ {
		f.Sets[1] = append(f.Sets[1], []byte{byte(i), byte(i + 7)})
		ids = append(ids, 1<<16|uint32(i))
	}
	f.Colls = make([][][]uint32, 2)
	var names []uint32
	add := func(coll ...uint32) {
		g := len(coll) - 1
		names = append(names, uint32(g+1)<<16|uint32(len(f.Colls[g])))
		f.Colls[g] = append(f.Colls[g], coll)
	}
	for _, id := range ids {
		add(id)
	}
	for i := range ids {
		for j := range ids[:i] {
			if len(names) < c.Colls {
				add(ids[j], ids[i])
			}
		}
	}
	for i := 0; i < c.Used; i++ {
		f.Nodes = append(f.Nodes, fileNode{Parent: uint32(i / 50), ID: uint32(i + 1), Letter: int32(0x430 + i%50), Coll: names[i*(len(names)-1)/max(c.Used-1, 1)]})
	}
	return f
}

func tuneLoaded(ctx *pbt.Ctx, f *file) error {
	idx := index.New()
	if err := load(idx, f.bytes()); err != nil {
		return pbt.Errf("a valid file does not load: %v", err)
	}
	m := f.model()
	if _, err := m.contents(idx, 0); err != nil { // loaded right, or not this property's
		return err
	}
	sets := fmt.Sprint(idx.TagSetIndex())
	unused := f.unusedCollections()
	var once []byte
	for i := 0; i < 2; i++ {
		idx.Optimize()
		if got := fmt.Sprint(idx.TagSetIndex()); got != sets {
			return pbt.Errf("tag sets after optimising are %.300s, were %.300s", got, sets)
		}
		if err := m.everything(idx, 0); err != nil {
			return pbt.Errf("loaded and optimised: %v", err)
		}
		data, err := dump(idx)
		if err != nil {
			return pbt.Errf("writing what was loaded and optimised: %v", err)
		}
		g, err := parse(data)
		if err != nil {
			return pbt.Errf("what was loaded and optimised is written wrong: %v", err)
		}
		if n := g.unusedCollections(); n > 0 {
			return pbt.Errf("%d collections no word uses are left of %d in the file", n, unused)
		}
		if i > 0 && !bytes.Equal(data, once) {
			return pbt.Errf("optimising again changes the index")
		}
		once = data
		reloaded := index.New()
		if err = load(reloaded, data); err != nil {
			return pbt.Errf("reading what was loaded and optimised: %v", err)
		}
		if err = m.everything(reloaded, 0); err != nil {
			return pbt.Errf("loaded, optimised and reloaded: %v", err)
		}
	}
	ctx.LabelIf(unused > 0 && m.words() == 0, "no word uses any collection")
	ctx.LabelIf(unused > 0, "unused collections removed")
	ctx.NonTrivialIf(unused > 0)
	ctx.Exec(2)
	return nil
}

func i04() pbt.Property {
	cfg := genConfig{ops: 40, odd: true, kinds: []string{"tag", "word", "attach", "attach", "attach", "attach", "attach", "reload", "optimise", "save", "revert"}}
	return pbt.Property{
		ID:          "I04",
		Rule:        "optimising has unused collections to remove and at least two words have tag sets",
		Assumptions: histAssumptions,
		Shards:      4,
		Facets: []pbt.Facet{
			pbt.Rapid("tune", 9600, 240000, func(t *rapid.T) tune {
				r := genRound(t, cfg, 10)
				return tune{r.H, r.More}
			}, runTune(0)),
			pbt.Rapid("loaded", 6000, 180000, func(t *rapid.T) tuneFile {
				c := tuneFile{File: genFile(t, rapid.Bool().Draw(t, "small"))}
				switch rapid.IntRange(0, 3).Draw(t, "used") {
				case 0: // none
					for i := range c.File.Nodes {
						c.File.Nodes[i].Coll = 0
					}
				case 1: // all of a few
					for i := range c.File.Nodes {
						c.File.Nodes[i].Coll = rapid.IntRange(0, 3).Draw(t, "collection")
					}
				}
				return c
			}, runTuneFile),
			pbt.Enum("many-unused", func(tier string, yield func(manyUnused) bool) {
				cases := []manyUnused{{300, 0}, {5000, 1}, {20000, 700}, {33500, 40}, {65700, 300}}
				if tier == "thorough" {
					cases = append(cases, manyUnused{65900, 0}, manyUnused{50000, 5000}, manyUnused{65915, 65})
				}
				for _, c := range cases {
					if !yield(c) {
						return
					}
				}
			}, func(ctx *pbt.Ctx, c manyUnused) error {
				ctx.Label("%d collections", c.Colls)
				return tuneLoaded(ctx, c.build())
			}),
			pbt.Rapid("bulk", 240, 7200, func(t *rapid.T) tune {
				c := cfg
				c.ops, c.bulk, c.kinds = 6, 800, []string{"bulk", "attach", "word", "attach", "reload"}
				r := genRound(t, c, 6)
				return tune{r.H, r.More}
			}, runTune(300)),
			pbt.Enum("large", func(tier string, yield func(tune) bool) {
				for i, n := range bulkSizes(tier) {
					if !yield(tune{bulkHistory(n, i*3+1), []op{{K: "attach", W: 0, T: []int{1}}, {K: "attach", W: 1, Cut: -1, T: []int{0, 2}}}}) {
						return
					}
				}
			}, runTune(20000)),
			pbt.Enum("many-sets", func(tier string, yield func(tune) bool) {
				extremeCases(manySets, nil)(tier, func(h history) bool {
					return yield(tune{h, []op{{K: "attach", W: 1, T: []int{1}}, {K: "attach", W: 1, Cut: -1, T: []int{0, 2}}}})
				})
			}, runTune(400)),
			pbt.Enum("long-words", func(tier string, yield func(tune) bool) {
				extremeCases(nil, longest)(tier, func(h history) bool {
					return yield(tune{h, []op{{K: "attach", W: 1, T: []int{1}}, {K: "attach", W: 1, Cut: -1, T: []int{0, 2}}}})
				})
			}, runTune(30)),
		},
	}
}
