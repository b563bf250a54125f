package main

import (
	"bytes"

	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/xio"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- S07

// task is what one owner does with sets and registries of its own.
type task struct {
	Reg   *regCase `json:",omitempty"`
	Codec *s02Case `json:",omitempty"`
	Laws  *s03Case `json:",omitempty"`
}

func genTask(t *rapid.T, earlier []task) task {
	var res task
	switch rapid.IntRange(0, 5).Draw(t, "task") {
	case 0, 1:
		c := genReg(false)(t)
		res.Reg = &c
	case 2, 3:
		c := genReg(true)(t)
		res.Reg = &c
	case 4:
		c := genS02(t)
		res.Codec = &c
	default:
		c := s03Case{Width: genWidth(t)}
		w := widths[c.Width]
		c.A, c.B = genSet(t, w, "a"), genSet(t, w, "b")
		c.Mut = rapid.IntRange(0, 8).Draw(t, "mut")
		c.Pos, c.I, c.J = rapid.IntRange(0, 300).Draw(t, "pos"), rapid.IntRange(0, 300).Draw(t, "i"), rapid.IntRange(0, 300).Draw(t, "j")
		res.Laws = &c
	}
	if r := res.Reg; r != nil { // shorter than alone, about the sets of another owner, registered in another order
		if len(r.Ops) > 14 {
			r.Ops = r.Ops[:14]
		}
		for i := range r.Ops {
			if r.Ops[i].K == opTooBig {
				r.Ops[i] = regOp{K: opIndex, Set: i}
			}
		}
		for _, e := range earlier {
			if e.Reg != nil && rapid.Bool().Draw(t, "same sets") {
				r.Width, r.Coll, r.Len, r.Columns, r.Prefill = e.Reg.Width, e.Reg.Coll, e.Reg.Len, e.Reg.Columns, e.Reg.Prefill
				r.Pool = append(append([]setSpec{}, e.Reg.Pool[1:]...), e.Reg.Pool[0])
				greatest := uint32(widths[r.Width].maxID)
				if r.Coll {
					greatest = greatest<<widths[r.Width].bits | greatest
				}
				for i := range r.Ops {
					r.Ops[i].Arg &= greatest
				}
				break
			}
		}
	}
	return res
}

func (c task) run(ctx *pbt.Ctx) error {
	switch {
	case c.Reg != nil:
		return regRun(ctx, *c.Reg)
	case c.Laws != nil:
		return s03Run(ctx, *c.Laws)
	}
	w := widths[c.Codec.Width]
	ids := c.Codec.Set.ids(w)
	ctx.NonTrivialIf(len(ids) > 0)
	ctx.Label("codec")
	ctx.Exec(2)
	var out bytes.Buffer
	n, err, after := w.write(ids, xio.Turning{Turn: ctx.Turn, W: &out})
	if err != nil || n != int64(out.Len()) || !same(after, ids) || !bytes.Equal(out.Bytes(), layout(w, ids)) {
		return pbt.Errf("%v written as %v (%d bytes reported, %v), expected %v; the set is %v afterwards", short(ids), shortB(out.Bytes()), n, err, shortB(layout(w, ids)), short(after))
	}
	got, n, err := w.read(c.Codec.Prev.ids(w), xio.Turning{Turn: ctx.Turn, R: xio.NewChunks(out.Bytes(), c.Codec.Sizes, c.Codec.WithEOF)})
	if err != nil || n != int64(out.Len()) || !same(got, ids) {
		return pbt.Errf("%v read back as %v (%d bytes reported, %v)", shortB(out.Bytes()), short(got), n, err)
	}
	return nil
}

// runExtended reads several sets, appends to all of them, and looks whether that is seen in others.
func runExtended(ctx *pbt.Ctx, c s01Case) error {
	w := widths[c.Width]
	var encoded [][]byte
	filled := 0
	for _, s := range c.Sets {
		ids := s.ids(w)
		if len(ids) > 0 {
			filled++
		}
		encoded = append(encoded, layout(w, ids))
	}
	ctx.NonTrivialIf(filled > 1)
	ctx.Exec(len(encoded))
	got, err := w.readAll(encoded)
	if err != nil {
		return pbt.Errf("reading %d sets: %v", len(encoded), err)
	}
	for i, s := range c.Sets {
		if want := s.ids(w); !same(got[i], want) {
			return pbt.Errf("set %d of %d, read as %v, is %v after others have been extended", i, len(got), short(want), short(got[i]))
		}
	}
	return nil
}

func s07() pbt.Property {
	run := func(ctx *pbt.Ctx, c task) error { return c.run(ctx) }
	return pbt.Property{
		ID:   "S07",
		Race: true,
		Rule: "cases are 2 to 5 owners, each with a history over a registry, a pair of sets or a stream of its own, and the order in which they take turns " +
			"(after every operation and within every read and write); non-trivial: at least two of them do something non-trivial by the rules of S02 to S05; " +
			"or several sets read and then all appended to; non-trivial: at least two of them have elements",
		Assumptions: []string{"data races are those the race detector of Go sees in the executions made"},
		Shards:      4,
		Facets: []pbt.Facet{
			pbt.InTurns("in-turns", 2400, 60000, 4, genTask, run),
			pbt.AtOnce("at-once", 2400, 60000, 5, genTask, run),
			pbt.Rapid("extended", 2000, 40000, func(t *rapid.T) s01Case {
				c := s01Case{Width: genWidth(t)}
				for i, n := 0, rapid.IntRange(2, 6).Draw(t, "sets"); i < n; i++ {
					c.Sets = append(c.Sets, genSet(t, widths[c.Width], "set"))
				}
				return c
			}, runExtended),
		},
	}
}
