package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/pbt"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- I08

// readers is a history and what goroutines look up in the result.
type readers struct {
	H          history
	Loaded     bool
	Goroutines int
	Lookups    []op // W, Cut: the word; How: the way; N: what to start with in other goroutines
	Rounds     int
}

// ask does one lookup and compares it with the model, which only reads.
func ask(idx *index.Index, m *model, h *history, o op) error {
	w := h.opWord(o)
	id, ok := m.find(w)
	node := dag.ID(o.N % (len(m.nodes) + 3))
	switch o.How % 10 {
	case 0, 1:
		return m.agree(idx, w)
	case 2:
		n, err := idx.Get(node)
		if (err == nil) != (int(node) < len(m.nodes)) {
			return pbt.Errf("node %d of %d: %v", node, len(m.nodes)-1, err)
		}
		if err != nil {
			return nil
		}
		if err = m.is(n, int(node)); err == nil && node != 0 {
			err = m.tagSetsOf(n, int(node))
		}
		return err
	case 3:
		if int(node) < len(m.nodes) {
			return m.childrenOf(idx, int(node), idx.GetChildrenMap(node))
		}
		return nil
	case 4:
		got := idx.GetChildrenIDMap(node)
		if int(node) < len(m.nodes) {
			if len(got) != len(m.nodes[node].children) {
				return pbt.Errf("node %d has %d child ids, want %d", node, len(got), len(m.nodes[node].children))
			}
			for letter, child := range m.nodes[node].children {
				if int(got[letter]) != child {
					return pbt.Errf("child id %q of node %d is %d, want %d", string(letter), node, got[letter], child)
				}
			}
		}
		return nil
	case 5:
		if len(w) == 0 {
			return nil
		}
		n, err := idx.FetchItemFromParent(0, w)
		if ok != (err == nil) || ok && int(n.Id()) != id {
			return pbt.Errf("item of %q is %v (%v), added: %v as %d", string(w), n, err, ok, id)
		}
		if !ok {
			return nil
		}
		return m.tagSetsOf(n, id)
	case 6:
		if idx.NodesCount() != len(m.nodes)-1 || idx.WordsCount() != m.words() {
			return pbt.Errf("counts are %d, %d, want %d, %d", idx.NodesCount(), idx.WordsCount(), len(m.nodes)-1, m.words())
		}
		return m.childrenOf(idx, 0, idx.Children())
	case 7:
		if err := m.tagList(idx); err != nil {
			return err
		}
		_ = fmt.Sprint(idx.TagSetIndex())
		_ = idx.TagSetIndex().Size()
		return nil
	case 8:
		if !ok {
			return nil
		}
		item := idx.GetItem(dag.ID(id)).Item()
		coll, err := idx.Variants(item.Variants)
		if err != nil || len(coll) != len(m.nodes[id].sets) {
			return pbt.Errf("collection %d of %q: %v (%v), want %d sets", item.Variants, string(w), coll, err, len(m.nodes[id].sets))
		}
		for _, setID := range coll {
			set, ok := idx.TagSetIndex().Get(setID)
			if !ok {
				return pbt.Errf("tag set %d of %q is not found", setID, string(w))
			}
			if tags, err := idx.TagSet(set); err != nil || len(tags) != len(set) {
				return pbt.Errf("tags of set %d: %v (%v)", setID, tags, err)
			}
		}
		return nil
	default: // words that are not there, from nodes that are not there
		if _, err := idx.FetchFromItem(dag.ID(1<<20+o.N), []rune{'a'}); err == nil {
			return pbt.Errf("a word was found from node %d", 1<<20+o.N)
		}
		if _, err := idx.FetchString("нет такого слова \x01"); err == nil {
			return pbt.Errf("a word that was never added was found")
		}
		idx.GetChildrenIDMap(dag.ID(1<<20 + o.N))
		_ = idx.GetItem(node).String()
		return nil
	}
}

func genReaders(t *rapid.T) readers {
	c := genConfig{ops: 25, odd: true, kinds: []string{"tag", "word", "attach", "attach", "attach", "optimise"}}
	r := readers{H: genHistory(t, c)}
	r.Loaded = rapid.Bool().Draw(t, "loaded")
	r.Goroutines = rapid.IntRange(2, 8).Draw(t, "goroutines")
	r.Rounds = rapid.IntRange(1, 4).Draw(t, "rounds")
	n := rapid.IntRange(1, 12).Draw(t, "lookups")
	for i := 0; i < n; i++ {
		o := op{K: "look", W: rapid.IntRange(0, len(r.H.Words)-1).Draw(t, "word"), How: rapid.IntRange(0, 9).Draw(t, "how"), N: rapid.IntRange(0, 60).Draw(t, "n")}
		if rapid.Bool().Draw(t, "varied") {
			o.Cut = rapid.IntRange(-3, 3).Draw(t, "cut")
		}
		r.Lookups = append(r.Lookups, o)
	}
	return r
}

func prepareReaders(ctx *pbt.Ctx, c *readers) (*engine, []byte, error) {
	e := newEngine(ctx, &c.H)
	if err := e.run(); err != nil {
		return nil, nil, err
	}
	data, err := dump(e.idx)
	if err != nil {
		return nil, nil, pbt.Errf("writing: %v", err)
	}
	if c.Loaded {
		fresh := index.New()
		if err = load(fresh, data); err != nil {
			return nil, nil, pbt.Errf("reading back: %v", err)
		}
		e.idx = fresh
	}
	ctx.LabelIf(c.Loaded, "loaded")
	ctx.LabelIf(!c.Loaded, "built in memory")
	ctx.NonTrivialIf(e.m.words() > 0 && len(c.Lookups) >= 3)
	return e, data, nil
}

func i08() pbt.Property {
	alone := func(ctx *pbt.Ctx, c readers) error {
		e, data, err := prepareReaders(ctx, &c)
		if err != nil {
			return err
		}
		for _, o := range c.Lookups {
			ctx.Exec(1)
			if err = ask(e.idx, e.m, &c.H, o); err != nil {
				return err
			}
			after, err := dump(e.idx)
			if err != nil || !bytes.Equal(after, data) {
				return pbt.Errf("lookup %+v changed the written form at byte %d (%v)", o, firstDiff(after, data), err)
			}
		}
		return e.m.everything(e.idx, 0)
	}
	together := func(ctx *pbt.Ctx, c readers) error {
		e, data, err := prepareReaders(ctx, &c)
		if err != nil {
			return err
		}
		errs := make([]error, c.Goroutines)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := range errs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for r := 0; r < c.Rounds; r++ {
					for i := range c.Lookups { // each goroutine in another order
						o := c.Lookups[(i+g)%len(c.Lookups)]
						o.N += g * r
						if err := ask(e.idx, e.m, &c.H, o); err != nil {
							errs[g] = err
							return
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		ctx.Exec(c.Goroutines * c.Rounds * len(c.Lookups))
		for g, err := range errs {
			if err != nil {
				return pbt.Errf("goroutine %d: %v", g, err)
			}
		}
		after, err := dump(e.idx)
		if err != nil || !bytes.Equal(after, data) {
			return pbt.Errf("lookups changed the written form at byte %d (%v)", firstDiff(after, data), err)
		}
		return e.m.everything(e.idx, 0)
	}
	return pbt.Property{
		ID:   "I08",
		Race: true,
		Rule: "the index has words with tag sets and at least 3 lookups are made",
		Assumptions: []string{
			"data races are those the race detector of Go sees in the executions made; nobody changes the index meanwhile",
			"logging is a stand-in that locks",
		},
		Shards: 4,
		Facets: []pbt.Facet{
			pbt.Rapid("alone", 3000, 72000, genReaders, alone),
			pbt.Rapid("together", 5400, 150000, genReaders, together),
			pbt.Enum("together-large", func(tier string, yield func(readers) bool) {
				n := 2000
				if tier == "thorough" {
					n = 30000
				}
				for seed := 1; seed <= 4; seed++ {
					r := readers{H: bulkHistory(n, seed), Loaded: seed%2 == 0, Goroutines: 8, Rounds: 20}
					for i := 0; i < n; i += n / 40 {
						r.H.Words = append(r.H.Words, bulkWord(i, seed))
					}
					for i := range r.H.Words {
						r.Lookups = append(r.Lookups, op{K: "look", W: i, How: i, N: i * 13, Cut: i % 3})
					}
					if !yield(r) {
						return
					}
				}
			}, together),
		},
	}
}
