package main

import (
	"bytes"

	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/xio"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- D06

// task is what one owner does with a tag registry, a tag or a name of its own.
type task struct {
	Reg   *d01Case `json:",omitempty"`
	Codec *d02Case `json:",omitempty"`
}

func genTask(t *rapid.T, earlier []task) (res task) {
	if rapid.IntRange(0, 2).Draw(t, "codec") == 0 {
		c := genCodec(t)
		c.Kind = rapid.IntRange(0, 2).Draw(t, "kind")
		c.Sizes = rapid.SliceOfN(rapid.IntRange(1, 9), 1, 4).Draw(t, "sizes")
		c.WithEOF = rapid.Bool().Draw(t, "with eof")
		res.Codec = &c
		return res
	}
	c := d01Case{Initial: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tagSpec {
		return tagSpec{genName(t, "parent"), genName(t, "name")}
	}), 0, 6).Draw(t, "initial")}
	if rapid.IntRange(0, 9).Draw(t, "fill") == 0 {
		c.Fill = rapid.IntRange(1, 256).Draw(t, "filled") - len(c.Initial)
	}
	for _, e := range earlier {
		if e.Reg != nil && rapid.Bool().Draw(t, "same list") {
			c.Initial, c.Fill = e.Reg.Initial, e.Reg.Fill
			break
		}
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tagOp {
		o := tagOp{K: rapid.SampledFrom([]int{opIndex, opIndex, opIndex, opFind, opGet}).Draw(t, "op")}
		switch o.K {
		case opIndex:
			o.Parent, o.Name = genName(t, "parent"), genName(t, "name")
		case opFind:
			o.Name = genName(t, "name")
		case opGet:
			o.Arg = rapid.IntRange(0, 255).Draw(t, "id")
		}
		return o
	}), 1, 14).Draw(t, "ops")
	res.Reg = &c
	return res
}

func (c task) run(ctx *pbt.Ctx) error {
	if c.Reg != nil {
		return d01Run(ctx, *c.Reg)
	}
	enc, read, write := codecCase(*c.Codec)
	ctx.NonTrivialIf(len(enc) > 1)
	ctx.Label("codec")
	ctx.Exec(2)
	var out bytes.Buffer
	if err := write(xio.Turning{Turn: ctx.Turn, W: &out}); err != nil || !bytes.Equal(out.Bytes(), enc) {
		return pbt.Errf("written as %x (%v), expected %x", out.Bytes(), err, enc)
	}
	err, diff := read(xio.Turning{Turn: ctx.Turn, R: xio.NewChunks(out.Bytes(), c.Codec.Sizes, c.Codec.WithEOF)})
	if err != nil {
		return pbt.Errf("%x: %v", enc, err)
	}
	return diff
}

// siblings are registries made from one list, which has room for more.
type siblings struct {
	Initial []tagSpec
	Room    int
	Group   pbt.Group[[]tagOp]
}

func genSiblings(t *rapid.T) siblings {
	s := siblings{
		Initial: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tagSpec { return tagSpec{genName(t, "parent"), genName(t, "name")} }), 0, 5).Draw(t, "initial"),
		Room:    rapid.IntRange(0, 40).Draw(t, "room"),
	}
	for i, n := 0, rapid.IntRange(2, 3).Draw(t, "registries"); i < n; i++ {
		s.Group.Cases = append(s.Group.Cases, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tagOp {
			return tagOp{K: opIndex, Parent: genName(t, "parent"), Name: genName(t, "name")}
		}), 1, 10).Draw(t, "ops"))
	}
	s.Group.Turns = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 16).Draw(t, "turns")
	return s
}

func d06() pbt.Property {
	run := func(ctx *pbt.Ctx, c task) error { return c.run(ctx) }
	return pbt.Property{
		ID:   "D06",
		Race: true,
		Rule: "cases are 2 to 5 owners, each with a history over a tag registry of its own or a registry, tag or name to write and read, or 2 to 3 registries made from one list or read from the same bytes, " +
			"and the order in which they take turns (after every operation and within every read and write); non-trivial: at least two of them do something non-trivial by the rules of D01 and D03",
		Assumptions: []string{"data races are those the race detector of Go sees in the executions made"},
		Shards:      4,
		Facets: []pbt.Facet{
			pbt.InTurns("in-turns", 2400, 60000, 4, genTask, run),
			pbt.AtOnce("at-once", 2400, 60000, 5, genTask, run),
			pbt.Rapid("one-list", 2400, 60000, genSiblings, func(ctx *pbt.Ctx, s siblings) error {
				list := make([]dag.Tag, 0, len(s.Initial)+s.Room)
				for _, tag := range s.Initial {
					list = append(list, tag.tag())
				}
				return pbt.RunInTurns(ctx, s.Group, func(ctx *pbt.Ctx, ops []tagOp) error {
					return d01Run(ctx, d01Case{Initial: s.Initial, Ops: ops, shared: list})
				})
			}),
			pbt.Rapid("read-apart", 2400, 60000, func(t *rapid.T) siblings {
				s := genSiblings(t)
				s.Initial = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tagSpec { return tagSpec{genGood(t, "parent"), genGood(t, "name")} }), 0, 9).Draw(t, "read")
				return s
			}, func(ctx *pbt.Ctx, s siblings) error {
				return pbt.RunInTurns(ctx, s.Group, func(ctx *pbt.Ctx, ops []tagOp) error {
					return d01Run(ctx, d01Case{Initial: s.Initial, Ops: ops, read: true})
				})
			}),
		},
	}
}
