package main

import (
	"bytes"
	"fmt"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/pbt"
)

// longWord is a word far longer than any other facet has.
type longWord struct {
	N    int  // letters
	Wide bool // of two bytes
	Cut  int  // where another word ends, in thousandths
}

func (c longWord) runes() []rune {
	res := make([]rune, c.N)
	x := uint32(c.N*7919 + c.Cut)
	for i := range res {
		x = x*1664525 + 1013904223
		if res[i] = rune('a' + x>>16%26); c.Wide {
			res[i] = rune('а' + x>>16%32)
		}
	}
	return res
}

func longWords(tier string, yield func(longWord) bool) {
	sizes := []longWord{{4097, false, 999}, {8200, true, 500}, {33000, true, 990}, {66000, false, 993}}
	if tier == "thorough" {
		sizes = append(sizes, longWord{66000, true, 1}, longWord{70000, true, 996})
	}
	for _, c := range sizes {
		if !yield(c) {
			return
		}
	}
}

// runLongest adds a word, a beginning of it and one that differs in the last letter.
// What is looked at: 0 what is found, 1 what nodes tell, 2 what is left of it after saving and loading.
func runLongest(what int) func(*pbt.Ctx, longWord) error {
	return func(ctx *pbt.Ctx, c longWord) error {
		ctx.NonTrivial()
		ctx.Exec(1)
		all := c.runes()
		cut := 1 + (c.N-3)*c.Cut/1000
		words := []string{string(all), string(all[:cut]), string(all[:c.N-1]) + "!"}
		tags := []dag.TagName{"LONG", "HALF", "ELSE"}
		idx := index.New()
		for i, w := range words {
			idx.TagID(tags[i], "")
			node, err := idx.AddString(w)
			if err != nil {
				return pbt.Errf("a word of %d letters is not added: %v", len([]rune(w)), err)
			}
			if err = node.AddTagSet(tags[i]); err != nil {
				return pbt.Errf("a word of %d letters: %v", len([]rune(w)), err)
			}
		}
		look := func(idx *index.Index, after string) error {
			if n, k := idx.NodesCount(), idx.WordsCount(); n != c.N+1 || k != len(words) {
				return pbt.Errf("%s%d nodes and %d words instead of %d and %d", after, n, k, c.N+1, len(words))
			}
			for i, w := range words {
				letters := len([]rune(w))
				node, err := idx.FetchString(w)
				if err != nil {
					return pbt.Errf("%sa word of %d letters is not found: %s", after, letters, clip([]byte(err.Error())))
				}
				sets := node.TagSets()
				if len(sets) != 1 || len(sets[0]) != 1 || sets[0][0].Name != tags[i] {
					return pbt.Errf("%sa word of %d letters has tag sets %v, not %s", after, letters, sets, tags[i])
				}
				if what == 0 || i == 1 {
					continue
				}
				if got := node.Word(); got != w {
					return pbt.Errf("%sthe node of a word of %d bytes says its word has %d bytes", after, len(w), len(got))
				}
			}
			for _, w := range []string{string(all) + "!", string(all[:cut]) + "!", string(all[1:])} {
				if _, err := idx.FetchString(w); err == nil {
					return pbt.Errf("%sa word of %d letters is found, but was never added", after, len([]rune(w)))
				}
			}
			if what > 0 {
				node := dag.Node(nil)
				for _, n := range []int{c.N - 1, c.N / 2} {
					var err error
					if node, err = idx.FetchString(string(all[:n])); err != nil {
						return pbt.Errf("%sthe node of %d letters is not found", after, n)
					}
					if n != cut && len(node.TagSets()) != 0 {
						return pbt.Errf("%sthe node of %d letters has tag sets", after, n)
					}
				}
			}
			return nil
		}
		if err := look(idx, ""); err != nil || what < 2 {
			return err
		}
		data, err := dump(idx)
		if err != nil {
			return pbt.Errf("a word of %d letters can not be saved: %v", c.N, err)
		}
		again := index.New()
		if err = load(again, data); err != nil {
			return pbt.Errf("an index of a word of %d letters, saved, is not loaded: %v", c.N, err)
		}
		if err = look(again, "loaded back: "); err != nil {
			return err
		}
		if second, err := dump(again); err != nil || !bytes.Equal(second, data) {
			return fmt.Errorf("saved again it is different (%v)", err)
		}
		return nil
	}
}
