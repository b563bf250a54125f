package pbt

import (
	"fmt"
	"sync"

	"pgregory.net/rapid"
)

// Group is several cases executed in turns or at the same time, none of which may notice the others.
type Group[C any] struct {
	Cases []C
	Turns []int // in turns: which of those not done yet goes on, again and again
}

// member is a case of a group while it runs.
type member struct {
	ctx     *Ctx
	err     error
	harness *HarnessError
	baton   chan struct{}
	done    bool
}

func (m *member) run(f func(*Ctx) error) {
	defer func() {
		if p := recover(); p != nil {
			h, ok := p.(HarnessError)
			if !ok {
				panic(p)
			}
			m.harness = &h
		}
	}()
	m.err = safely(m.ctx, f)
}

func runGroup[C any](ctx *Ctx, g Group[C], inTurns bool, run func(*Ctx, C) error) error {
	members := make([]*member, len(g.Cases))
	back := make(chan struct{})
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, c := range g.Cases {
		m := &member{ctx: &Ctx{Tier: ctx.Tier, replaying: ctx.replaying}, baton: make(chan struct{})}
		members[i] = m
		if inTurns {
			m.ctx.turn = func() {
				back <- struct{}{}
				<-m.baton
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if !inTurns {
				<-start
				m.run(func(ctx *Ctx) error { return run(ctx, c) })
				return
			}
			<-m.baton
			m.run(func(ctx *Ctx) error { return run(ctx, c) })
			m.done = true
			back <- struct{}{}
		}()
	}
	close(start)
	for k := 0; inTurns; k++ {
		var alive []*member
		for _, m := range members {
			if !m.done {
				alive = append(alive, m)
			}
		}
		if len(alive) == 0 {
			break
		}
		next := k
		if len(g.Turns) > 0 {
			next = g.Turns[k%len(g.Turns)]
		}
		alive[next%len(alive)].baton <- struct{}{}
		<-back
	}
	wg.Wait()
	for _, m := range members {
		m.ctx.cleanup()
	}
	rich := 0
	for _, m := range members {
		if m.harness != nil {
			panic(*m.harness)
		}
		ctx.Exec(int(m.ctx.execs))
		for l := range m.ctx.labels {
			ctx.Label("%s", l)
		}
		if m.ctx.nontrivial {
			rich++
		}
	}
	for i, m := range members {
		if m.err != nil {
			return fmt.Errorf("%d of %d, among the others: %w", i, len(members), m.err)
		}
	}
	ctx.NonTrivialIf(rich >= 2)
	return nil
}

// RunInTurns executes the cases of a group alternately.
func RunInTurns[C any](ctx *Ctx, g Group[C], run func(*Ctx, C) error) error {
	return runGroup(ctx, g, true, run)
}

func genGroup[C any](t *rapid.T, max int, gen func(*rapid.T, []C) C, turns bool) (g Group[C]) {
	n := rapid.IntRange(2, max).Draw(t, "cases")
	for i := 0; i < n; i++ {
		g.Cases = append(g.Cases, gen(t, g.Cases))
	}
	if turns {
		g.Turns = rapid.SliceOfN(rapid.IntRange(0, max-1), 1, 24).Draw(t, "turns")
	}
	return g
}

// InTurns makes a facet in which two to max cases are executed alternately; gen knows the cases drawn before.
func InTurns[C any](name string, quick, thorough, max int, gen func(*rapid.T, []C) C, run func(*Ctx, C) error) Facet {
	return Rapid(name, quick, thorough, func(t *rapid.T) Group[C] { return genGroup(t, max, gen, true) },
		func(ctx *Ctx, g Group[C]) error { return runGroup(ctx, g, true, run) })
}

// AtOnce makes a facet in which two to max cases are executed at the same time.
func AtOnce[C any](name string, quick, thorough, max int, gen func(*rapid.T, []C) C, run func(*Ctx, C) error) Facet {
	return Rapid(name, quick, thorough, func(t *rapid.T) Group[C] { return genGroup(t, max, gen, false) },
		func(ctx *Ctx, g Group[C]) error { return runGroup(ctx, g, false, run) })
}
