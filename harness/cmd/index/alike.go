package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/collide"
	"github.com/amarin/gomorphy/verif/pbt"
)

// hashed are two things which a hash function does not tell apart: tag sets, collections of them or words.
type hashed struct {
	What   int // 0 tag sets, 1 collections, 2 words
	Hash   int
	Seed   uint32
	Second bool // the second one first
}

const (
	alikeSets = iota
	alikeColls
	alikeWords
)

func alikeCases(tier string, yield func(hashed) bool) {
	seeds := 2
	if tier == "thorough" {
		seeds = 12
	}
	for seed := 0; seed < seeds; seed++ {
		for hash := 0; hash < collide.Kinds; hash++ {
			for what := alikeSets; what <= alikeWords; what++ {
				if !yield(hashed{what, hash, uint32(seed), (seed+hash+what)%2 == 1}) {
					return
				}
			}
		}
	}
}

// distinct is whether an ascending sequence has every value once.
func distinct(v []int) bool {
	for i := 1; i < len(v); i++ {
		if v[i] == v[i-1] {
			return false
		}
	}
	return true
}

func (c hashed) pair() (a, b []int) {
	lo, hi, enc := 0, 254, collide.Bytes1
	if c.What == alikeColls {
		enc = []collide.Encoding{collide.Big2, collide.Little2}[c.Seed%2]
	}
	if c.What == alikeWords {
		lo, hi, enc = 'а', 'я', collide.UTF8
		if c.Hash%2 == 1 {
			lo, hi = 'a', 'z'
		}
	}
	for try := uint32(0); try < 60; try++ {
		a, b = collide.Pair(c.Hash, c.Seed+100*try, lo, hi, enc)
		if c.What == alikeWords || distinct(a) && distinct(b) {
			break
		}
	}
	if c.What != alikeWords {
		a, b = slices.Compact(a), slices.Compact(b)
	}
	if c.Second {
		a, b = b, a
	}
	return a, b
}

func tagOf(i int) dag.TagName { return dag.TagName(fmt.Sprintf("T%03d", i)) }

// runAlike adds both and looks for each; what is looked at as in runLongest.
func runAlike(what int) func(*pbt.Ctx, hashed) error {
	return func(ctx *pbt.Ctx, c hashed) error {
		a, b := c.pair()
		ctx.NonTrivial()
		ctx.Exec(1)
		ctx.Label("%s", []string{"tag sets", "collections", "words"}[c.What])
		idx := index.New()
		for i := 0; i < 255; i++ { // as many as can be saved
			if id := idx.TagID(tagOf(i), ""); int(id) != i {
				return pbt.Errf("tag %d got id %d", i, id)
			}
		}
		want := map[string][]string{} // a word's tag sets
		var words []string
		attach := func(word string, ids ...int) error {
			tags := make([]dag.TagName, len(ids))
			for i, id := range ids {
				tags[i] = tagOf(id)
			}
			node, err := idx.AddString(word)
			if err != nil {
				return pbt.Errf("%q is not added: %v", word, err)
			}
			if err = node.AddTagSet(tags...); err != nil {
				return pbt.Errf("%q: tag set %v is not attached: %v", word, ids, err)
			}
			if want[word] == nil {
				words = append(words, word)
			}
			want[word] = append(want[word], fmt.Sprint(tags))
			return nil
		}
		name := func(v []int) string {
			r := make([]rune, len(v))
			for i := range r {
				r[i] = rune(v[i])
			}
			return string(r)
		}
		add := func() error {
			switch c.What {
			case alikeSets:
				for i, v := range [][]int{a, b, a, b} {
					if err := attach([]string{"ab", "ac", "bd", "ab"}[i], v...); err != nil {
						return err
					}
				}
			case alikeColls:
				for i := 0; i < 255; i++ { // every set of one tag has an id
					if err := attach(fmt.Sprintf("x%03d", i), i); err != nil {
						return err
					}
				}
				for i, v := range [][]int{a, b, a} {
					for _, set := range v {
						if err := attach([]string{"ab", "ac", "bd"}[i], set); err != nil {
							return err
						}
					}
				}
			default:
				for i, v := range [][]int{a, b} {
					if err := attach(name(v), i); err != nil {
						return err
					}
				}
			}
			return nil
		}
		if c.What == alikeWords {
			node, err := idx.AddString(name(a))
			if err != nil || node == nil {
				return pbt.Errf("%q is not added: %v", name(a), err)
			}
			if _, err = idx.FetchString(name(b)); err == nil && !strings.HasPrefix(name(a), name(b)) {
				return pbt.Errf("%q is found, but only %q was added", name(b), name(a))
			}
		}
		if err := add(); err != nil {
			return err
		}
		look := func(idx *index.Index, after string) error {
			for _, word := range words {
				node, err := idx.FetchString(word)
				if err != nil {
					return pbt.Errf("%s%q is not found: %v", after, word, err)
				}
				var got []string
				for _, set := range node.TagSets() {
					names := make([]dag.TagName, len(set))
					for i, tag := range set {
						names[i] = tag.Name
					}
					slices.Sort(names)
					got = append(got, fmt.Sprint(names))
				}
				slices.Sort(got)
				expected := slices.Compact(slices.Sorted(slices.Values(want[word])))
				if !slices.Equal(got, expected) {
					return pbt.Errf("%s%q has tag sets %.300v, was given %.300v", after, word, got, expected)
				}
				if got := node.Word(); what > 0 && got != word {
					return pbt.Errf("%sthe node of %q says its word is %q", after, word, got)
				}
			}
			return nil
		}
		if err := look(idx, ""); err != nil || what < 2 {
			return err
		}
		data, err := dump(idx)
		if err != nil {
			return pbt.Errf("can not be saved: %v", err)
		}
		again := index.New()
		if err = load(again, data); err != nil {
			return pbt.Errf("saved, it is not loaded: %v", err)
		}
		if err = look(again, "loaded back: "); err != nil {
			return err
		}
		if err = add(); err != nil { // what was given again makes no difference
			return err
		}
		if err = look(idx, "given all again: "); err != nil {
			return err
		}
		idx.Optimize()
		return look(idx, "optimised: ")
	}
}
