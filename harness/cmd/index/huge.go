package main

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/pbt"
)

// huge is an index of all words of so many letters, of so many different ones.
type huge struct {
	Letters, Depth int
	Back           bool // from the last to the first
}

func hugeCases(tier string, yield func(huge) bool) {
	cases := []huge{{16, 5, false}}
	if tier == "thorough" {
		cases = append(cases, huge{2, 20, true}, huge{33, 4, true}, huge{26, 5, false}, huge{29, 5, false})
	}
	for _, c := range cases {
		if !yield(c) {
			return
		}
	}
}

func (c huge) words() int {
	n := 1
	for i := 0; i < c.Depth; i++ {
		n *= c.Letters
	}
	return n
}

func (c huge) word(i int) string {
	w := make([]rune, c.Depth)
	for k := c.Depth - 1; k >= 0; k-- {
		w[k] = 'а' + rune(i%c.Letters)
		i /= c.Letters
	}
	return string(w)
}

// sets are the tag sets of the i-th word, as masks of tags.
func (c huge) sets(i int) []int {
	switch i % 11 {
	case 0:
		return nil
	case 1, 2, 3:
		return []int{1 + i%7, 8}
	}
	return []int{1 + i%15}
}

func runHuge(what int) func(*pbt.Ctx, huge) error {
	return func(ctx *pbt.Ctx, c huge) error {
		ctx.NonTrivial()
		n := c.words()
		ctx.Exec(n)
		ctx.LabelIf(n > 1<<20, "over a million nodes")
		tags := []dag.TagName{"AAAA", "BBBB", "CCCC", "DDDD"}
		idx := index.New()
		for _, tag := range tags {
			idx.TagID(tag, "")
		}
		var some [16][]dag.TagName
		for mask := range some {
			for k, tag := range tags {
				if mask>>k&1 != 0 {
					some[mask] = append(some[mask], tag)
				}
			}
		}
		words := 0
		for k := 0; k < n; k++ {
			i := k
			if c.Back {
				i = n - 1 - k
			}
			node, err := idx.AddString(c.word(i))
			if err != nil {
				return pbt.Errf("word %d is not added: %v", k, err)
			}
			for _, mask := range c.sets(i) {
				if err = node.AddTagSet(some[mask]...); err != nil {
					return pbt.Errf("word %d: tag set is not attached: %v", k, err)
				}
			}
			if len(c.sets(i)) > 0 {
				words++
			}
		}
		nodes := 0 // but the root
		for k, level := 0, 1; k < c.Depth; k++ {
			level *= c.Letters
			nodes += level
		}
		look := func(idx *index.Index, after string) error {
			if idx.NodesCount() != nodes || idx.WordsCount() != words {
				return pbt.Errf("%s%d nodes and %d words instead of %d and %d", after, idx.NodesCount(), idx.WordsCount(), nodes, words)
			}
			step := n/20000 + 1
			for i := 0; i < n; i += step {
				if i+step >= n {
					step = 1
				}
				w := c.word(i)
				node, err := idx.FetchString(w)
				if err != nil {
					return pbt.Errf("%sword %d (%s) is not found: %v", after, i, w, err)
				}
				if got := node.Word(); got != w {
					return pbt.Errf("%sthe node of %q says its word is %q", after, w, got)
				}
				got := map[int]int{}
				for _, set := range node.TagSets() {
					mask := 0
					for _, tag := range set {
						for k := range tags {
							if tags[k] == tag.Name {
								mask |= 1 << k
							}
						}
					}
					got[mask]++
				}
				want := map[int]int{}
				for _, mask := range c.sets(i) {
					want[mask] = 1
				}
				for mask := range some {
					if got[mask] != want[mask] {
						return pbt.Errf("%s%q has tag set %v %d times instead of %d", after, w, some[mask], got[mask], want[mask])
					}
				}
				if _, err = idx.FetchString(w + "x"); err == nil {
					return pbt.Errf("%s%q is found, but was never added", after, w+"x")
				}
			}
			return nil
		}
		if err := look(idx, ""); err != nil || what < 2 {
			return err
		}
		data, err := dump(idx)
		if err != nil {
			return pbt.Errf("%d nodes can not be saved: %v", nodes, err)
		}
		again := index.New()
		if err = load(again, data); err != nil {
			return pbt.Errf("an index of %d nodes, saved, is not loaded: %v", nodes, err)
		}
		return look(again, "loaded back: ")
	}
}
