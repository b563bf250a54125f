package main

import (
	"github.com/amarin/gomorphy/verif/pbt"

	"pgregory.net/rapid"
)

// alike are letters often taken one for another: capitals, ё and е, composed and not, look-alikes, space of all kinds and nothing to see.
var alike = []rune("аАеЕёЁйЙи\u0306e\u0308aAßẞsSΣσςİıiI -\u00ad\u2010\u00a0\u200b\ufeff\u0301'’0Ѐǅǆ")

// genWord makes a word of one of several alphabets.
func genWord(t *rapid.T, label string, earlier [][]rune, odd bool) []rune {
	kind := rapid.IntRange(0, 12).Draw(t, label+" kind")
	switch {
	case kind == 0 && odd: // letters text has no room for, and unusual ones
		return rapid.SliceOfN(rapid.SampledFrom([]rune{0, 0xd800, 0xfffd, -1, 0x10ffff, 0x110000, 0x7fffffff, 'a', '\n', 1}), 1, 4).Draw(t, label)
	case kind == 1 && odd:
		return rapid.SliceOfN(rapid.Rune(), 1, 5).Draw(t, label)
	case kind == 2: // letters of all encoded lengths
		return rapid.SliceOfN(rapid.SampledFrom([]rune{'z', 'é', 'я', '丽', '𝛑', 'ё'}), 1, 5).Draw(t, label)
	case kind == 12:
		return rapid.SliceOfN(rapid.SampledFrom(alike), 1, 4).Draw(t, label)
	case kind == 3:
		return rapid.SliceOfN(rapid.SampledFrom([]rune("абвгдежзиклмнопрстуфхцчшщъыьэюяё-")), 1, 12).Draw(t, label)
	case kind <= 6 && len(earlier) > 0: // a relative of an earlier word
		base := earlier[rapid.IntRange(0, len(earlier)-1).Draw(t, label+" base")]
		cut := rapid.IntRange(0, len(base)).Draw(t, label+" cut")
		tail := rapid.SliceOfN(rapid.SampledFrom([]rune{'a', 'b', 'а', 'я'}), 0, 3).Draw(t, label+" tail")
		w := append(append([]rune(nil), base[:cut]...), tail...)
		if len(w) == 0 {
			return []rune{'a'}
		}
		return w
	default:
		return rapid.SliceOfN(rapid.SampledFrom([]rune{'a', 'b', 'а'}), 1, 6).Draw(t, label)
	}
}

// genConfig says what a history is made of.
type genConfig struct {
	ops   int
	kinds []string // operations, as often as listed
	odd   bool     // unusual letters
	names bool     // tag names of any form
	bulk  int      // greatest bulk
}

func genTags(t *rapid.T, names bool) []tagDef {
	var res []tagDef
	pool := []string{"NOUN", "VERB", "masc", "femn", "neut", "sing", "plur", "nomn", "gent", "datv", "accs", "ablt", "loct", "ADJF", "POST", "Ms-f", "1per", "2per", "----", "a   ", "   a", "ПО", "noun"}
	if names {
		pool = append(pool, "", "x", "longer name", "яяяя", "    ", "\xff\xfe")
	}
	n := rapid.IntRange(0, 10).Draw(t, "tags")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		name := rapid.SampledFrom(pool).Draw(t, "tag name")
		if seen[name] {
			continue
		}
		seen[name] = true
		parent := rapid.SampledFrom([]string{"", marker, "POST", "NOUN", "GNdr", "none"}).Draw(t, "tag parent")
		res = append(res, tagDef{name, parent})
	}
	return res
}

func genHistory(t *rapid.T, c genConfig) history {
	var h history
	h.Tags = genTags(t, c.names)
	n := rapid.IntRange(1, 12).Draw(t, "words")
	for i := 0; i < n; i++ {
		h.Words = append(h.Words, genWord(t, "word", h.Words, c.odd))
	}
	// tags are usually registered first, sometimes only on the way
	if rapid.IntRange(0, 3).Draw(t, "tags first") > 0 {
		for i := range h.Tags {
			h.Ops = append(h.Ops, op{K: "tag", W: i})
		}
	}
	ops := rapid.IntRange(1, c.ops).Draw(t, "ops")
	for i := 0; i < ops; i++ {
		h.Ops = append(h.Ops, genOp(t, c, &h))
	}
	return h
}

func genOp(t *rapid.T, c genConfig, h *history) op {
	o := op{K: rapid.SampledFrom(c.kinds).Draw(t, "op")}
	o.How = rapid.IntRange(0, 35).Draw(t, "how")
	switch o.K {
	case "tag":
		o.W = rapid.IntRange(0, 12).Draw(t, "tag")
	case "word", "attach", "fetch":
		o.W = rapid.IntRange(0, len(h.Words)-1).Draw(t, "word no")
		if rapid.IntRange(0, 3).Draw(t, "varied") == 0 {
			o.Cut = rapid.IntRange(-3, 3).Draw(t, "cut")
		}
		if o.K == "attach" {
			o.T = genTagRefs(t, len(h.Tags))
		}
	case "bulk":
		o.N = rapid.IntRange(1, c.bulk).Draw(t, "bulk")
		o.Seed = rapid.IntRange(0, 30).Draw(t, "seed")
	case "reload", "save", "revert":
		o.Seed = rapid.IntRange(0, 9).Draw(t, "seed")
	}
	return o
}

// genTagRefs picks tags to attach: few different sets, so that sets and collections repeat.
func genTagRefs(t *rapid.T, tags int) []int {
	if tags == 0 || rapid.IntRange(0, 19).Draw(t, "unknown tag") == 0 {
		return rapid.SliceOfN(rapid.IntRange(-1, tags), 0, 3).Draw(t, "tag refs")
	}
	n := rapid.IntRange(1, 4).Draw(t, "set size")
	if rapid.IntRange(0, 24).Draw(t, "wide") == 0 {
		n = rapid.IntRange(5, 40).Draw(t, "wide size")
	}
	if rapid.IntRange(0, 24).Draw(t, "none") == 0 {
		n = 0
	}
	return rapid.SliceOfN(rapid.IntRange(0, tags-1), n, n).Draw(t, "set")
}

// rich marks the case when it is worth something: words sharing letters, several tag sets.
func (e *engine) rich() bool {
	branching, multi := false, false
	for _, n := range e.m.nodes {
		branching = branching || len(n.children) > 1
		multi = multi || len(n.sets) > 1
	}
	return branching && multi
}

func (e *engine) labels(ctx *pbt.Ctx) {
	shared := map[string]int{}
	for _, n := range e.m.nodes {
		if len(n.sets) > 0 {
			keys := ""
			for _, k := range pbt.SortedKeys(n.sets) {
				keys += k + ";"
			}
			shared[keys]++
		}
	}
	for _, n := range shared {
		if n > 1 {
			ctx.Label("words sharing a collection")
		}
	}
	ctx.LabelIf(e.refused > 0, "unknown tags refused")
	ctx.LabelIf(e.reloads > 0, "reloaded")
	ctx.LabelIf(e.optims > 0, "optimised")
	ctx.LabelIf(len(e.m.nodes) > 256, "over 256 nodes")
	ctx.LabelIf(len(e.m.nodes) > 65536, "over 65536 nodes")
}
