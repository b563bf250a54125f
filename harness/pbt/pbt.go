// Package pbt runs the property checks of /verif: generated-input search with pgregory.net/rapid
// (or complete enumeration of a small space), explicit oracles, shrinking, JSON replay files and
// measured evidence.
//
// A property is a list of facets. A facet turns generated values ("cases", JSON-serialisable) into
// executions of the code under test and returns an error when the oracle disagrees. Whole histories
// are generated up front, as part of the case, so that a failing case replays without the
// generator.
package pbt

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Property is one listed property and the facets that decide it.
type Property struct {
	ID          string
	Level       string // "exploration" unless set
	Rule        string
	Assumptions []string
	Facets      []Facet
	Race        bool   // a report of the race detector is a violation
	Shards      int    // quick tier: number of worker processes (1 unless set)
	Memory      uint64 // address space the process may have; running out of it is a violation (0: any, and no verdict)
}

// Facet is one executable statement about the code under test.
type Facet struct {
	Name   string
	run    func(*worker)
	replay func(*Ctx, json.RawMessage) error
}

// Ctx accompanies one execution of one case.
type Ctx struct {
	Tier       string
	labels     map[string]bool
	nontrivial bool
	execs      int64
	scratch    string
	replaying  bool
	turn       func()
}

// Turn is called by a case between its steps: when several cases take turns, another may go on.
func (c *Ctx) Turn() {
	if c != nil && c.turn != nil {
		c.turn()
	}
}

// Label classifies the case.
func (c *Ctx) Label(format string, args ...any) {
	if c.labels == nil {
		c.labels = map[string]bool{}
	}
	c.labels[fmt.Sprintf(format, args...)] = true
}

// LabelIf classifies the case when cond holds.
func (c *Ctx) LabelIf(cond bool, format string, args ...any) {
	if cond {
		c.Label(format, args...)
	}
}

// knownLabel starts the label of a case that ran into a known finding.
const knownLabel = "known finding: "

// Known is for a disagreement err that is exactly the one of a known finding: when the finding is listed
// in known_findings.txt ("known: property=ID key=KEY what fails") it is noted and is no violation.
func (c *Ctx) Known(key string, err error) error {
	if _, ok := knownFindings[key]; !ok {
		return err
	}
	c.Label("%s%s", knownLabel, key)
	return nil
}

// knownFindings has the lines of the findings listed for the property, by key.
var knownFindings map[string]string

func readKnownFindings(path, id string) {
	knownFindings = map[string]string{}
	data, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " ")
		knownFindings[key] = what
	}
}

// NonTrivial marks the case as non-trivial by the rule of the property.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// NonTrivialIf marks the case when cond holds.
func (c *Ctx) NonTrivialIf(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Exec counts n executions of the code under test within the case (one per fault position, say).
func (c *Ctx) Exec(n int) { c.execs += int64(n) }

// Thorough tells the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Scratch returns an empty directory, removed after the case.
func (c *Ctx) Scratch() string {
	if c.scratch == "" {
		dir, err := os.MkdirTemp(scratchBase(), "case")
		Must(err)
		c.scratch = dir
	}
	return c.scratch
}

func (c *Ctx) cleanup() {
	if c.scratch != "" {
		_ = filepath.Walk(c.scratch, func(p string, info os.FileInfo, err error) error {
			if err == nil && info.IsDir() {
				_ = os.Chmod(p, 0o755)
			}
			return nil
		})
		_ = os.RemoveAll(c.scratch)
		c.scratch = ""
	}
}

func scratchBase() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// HarnessError reports that the harness itself could not do its work: no verdict.
type HarnessError struct{ Err error }

func (h HarnessError) Error() string { return "harness: " + h.Err.Error() }

// Works panics with an ordinary error, which is a violation: for what the code under test has to do for a case to begin.
func Works(what string, err error) {
	if err != nil {
		panic(fmt.Errorf("%s: %w", what, err))
	}
}

// Must panics with a HarnessError on error: to be used for the harness' own operations only.
func Must(err error) {
	if err != nil {
		panic(HarnessError{err})
	}
}

// Errf makes an oracle disagreement.
func Errf(format string, args ...any) error { return fmt.Errorf(format, args...) }

// Catch runs f and turns a panic of it into an error; expected tells whether it panicked.
func Catch(f func()) (panicked bool, value any) {
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(HarnessError); ok {
				panic(h)
			}
			panicked, value = true, p
		}
	}()
	f()
	return false, nil
}

// Rapid makes a facet searched with rapid: quick and thorough are total numbers of cases.
func Rapid[C any](name string, quick, thorough int, gen func(*rapid.T) C, run func(*Ctx, C) error) Facet {
	return Facet{
		Name: name,
		run: func(w *worker) {
			n := quick
			if w.tier == "thorough" {
				n = thorough
			}
			n = (n + w.shards - 1) / w.shards
			if n < 1 {
				n = 1
			}
			w.rapid(name, n, func(t *rapid.T) func(*Ctx) error {
				c := gen(t)
				return w.prepare(name, c, func(ctx *Ctx) error { return run(ctx, c) })
			})
		},
		replay: func(ctx *Ctx, raw json.RawMessage) error {
			var c C
			Must(json.Unmarshal(raw, &c))
			return run(ctx, c)
		},
	}
}

// Enum makes a facet that goes through all cases yielded, in order.
func Enum[C any](name string, cases func(tier string, yield func(C) bool), run func(*Ctx, C) error) Facet {
	return Facet{
		Name: name,
		run: func(w *worker) {
			i := 0
			cases(w.tier, func(c C) bool {
				i++
				if (i-1)%w.shards != w.shard {
					return true
				}
				return w.one(name, w.prepare(name, c, func(ctx *Ctx) error { return run(ctx, c) }))
			})
		},
		replay: func(ctx *Ctx, raw json.RawMessage) error {
			var c C
			Must(json.Unmarshal(raw, &c))
			return run(ctx, c)
		},
	}
}

// Failure is one oracle disagreement, minimised.
type Failure struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type report struct {
	Evaluations int64            `json:"evaluations"`
	Execs       int64            `json:"execs"`
	Facets      map[string]int64 `json:"facets"`
	Labels      map[string]int64 `json:"labels"`
	Samples     []Failure        `json:"samples"`
	Failures    []Failure        `json:"failures"`
	Capped      bool             `json:"capped"`
	Hashes      []uint64         `json:"hashes"`
}

type worker struct {
	prop      *Property
	tier      string
	seed      uint64
	shard     int
	shards    int
	rep       report
	hashes    map[uint64]struct{}
	deadline  time.Time
	journal   *os.File
	searching bool // false while shrinking
	lastCase  json.RawMessage
	lastMsg   string
	perFacet  map[string]int
	watch     watch
}

type watch struct {
	mu      sync.Mutex
	active  bool
	started time.Time
	cpu     time.Duration
	facet   string
	raw     []byte
	gen     int64
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// prepare serialises a case and returns its execution.
func (w *worker) prepare(facet string, c any, run func(*Ctx) error) func(*Ctx) error {
	raw, err := json.Marshal(c)
	Must(err)
	return func(ctx *Ctx) error {
		w.lastCase = raw
		if w.journal != nil {
			rec, _ := json.Marshal(Failure{Property: w.prop.ID, Facet: facet, Case: raw})
			_ = w.journal.Truncate(0)
			_, _ = w.journal.WriteAt(rec, 0)
		}
		w.watch.mu.Lock()
		w.watch.active, w.watch.started, w.watch.cpu = true, time.Now(), cpuTime()
		w.watch.facet, w.watch.raw = facet, raw
		w.watch.gen++
		w.watch.mu.Unlock()
		err := safely(ctx, run)
		w.watch.mu.Lock()
		w.watch.active = false
		w.watch.mu.Unlock()
		if w.searching {
			w.rep.Evaluations++
			w.rep.Execs += ctx.execs
			w.rep.Facets[facet]++
			for l := range ctx.labels {
				w.rep.Labels[facet+": "+l]++
			}
			if ctx.nontrivial {
				h := fnv.New64a()
				_, _ = h.Write([]byte(facet))
				_, _ = h.Write(raw)
				w.hashes[h.Sum64()] = struct{}{}
				if w.perFacet[facet] < 2 && len(raw) < 1500 && err == nil {
					w.perFacet[facet]++
					w.rep.Samples = append(w.rep.Samples, Failure{Property: w.prop.ID, Facet: facet, Case: raw})
				}
			}
		}
		return err
	}
}

// safely runs a case; a panic that reaches it is a disagreement.
func safely(ctx *Ctx, run func(*Ctx) error) (err error) {
	defer ctx.cleanup()
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(HarnessError); ok {
				panic(h)
			}
			stack := string(debug.Stack())
			if i := strings.Index(stack, "panic("); i > 0 {
				stack = stack[i:]
			}
			if len(stack) > 1800 {
				stack = stack[:1800]
			}
			err = fmt.Errorf("panic: %v\n%s", p, stack)
		}
	}()
	return run(ctx)
}

func (w *worker) ctx() *Ctx { return &Ctx{Tier: w.tier} }

// one executes a case outside rapid; false stops the enumeration.
func (w *worker) one(facet string, run func(*Ctx) error) bool {
	if time.Now().After(w.deadline) {
		w.rep.Capped = true
		return false
	}
	w.searching = true
	if err := run(w.ctx()); err != nil {
		w.fail(facet, err.Error(), w.lastCase)
		return false
	}
	return true
}

func (w *worker) fail(facet, msg string, raw json.RawMessage) {
	w.rep.Failures = append(w.rep.Failures, Failure{Property: w.prop.ID, Facet: facet, Message: msg, Case: raw})
}

var errStop = errors.New("stop")

// tb receives what rapid reports.
type tb struct {
	name   string
	failed atomic.Bool
	out    strings.Builder
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.name }
func (t *tb) Logf(string, ...any)       {}
func (t *tb) Log(...any)                {}
func (t *tb) Skipf(f string, a ...any)  { panic(HarnessError{fmt.Errorf("skip: "+f, a...)}) }
func (t *tb) Skip(a ...any)             { panic(HarnessError{fmt.Errorf("skip: %v", a)}) }
func (t *tb) SkipNow()                  { panic(HarnessError{errors.New("skip")}) }
func (t *tb) Errorf(f string, a ...any) { t.failed.Store(true); fmt.Fprintf(&t.out, f+"\n", a...) }
func (t *tb) Error(a ...any)            { t.failed.Store(true); fmt.Fprintln(&t.out, a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(errStop) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(errStop) }
func (t *tb) FailNow()                  { t.failed.Store(true); panic(errStop) }
func (t *tb) Fail()                     { t.failed.Store(true) }
func (t *tb) Failed() bool              { return t.failed.Load() }

// rapid searches a facet; gen draws a case and returns its execution.
func (w *worker) rapid(facet string, checks int, gen func(*rapid.T) func(*Ctx) error) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", w.prop.ID, facet, w.seed, w.shard)
	seed := h.Sum64()>>1 | 1
	setFlag("rapid.seed", fmt.Sprint(seed))
	setFlag("rapid.checks", fmt.Sprint(checks))
	t := &tb{name: w.prop.ID + "_" + facet}
	var firstMsg string
	var firstCase json.RawMessage
	var harness *HarnessError
	w.searching = true
	func() {
		defer func() {
			if p := recover(); p != nil && p != errStop { //nolint:errorlint
				panic(p)
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if harness != nil {
				return
			}
			if w.searching && time.Now().After(w.deadline) {
				w.rep.Capped = true
				return
			}
			run := gen(rt)
			var err error
			func() {
				defer func() {
					if p := recover(); p != nil {
						if he, ok := p.(HarnessError); ok {
							harness = &he
							return
						}
						panic(p)
					}
				}()
				err = run(w.ctx())
			}()
			if err != nil {
				if w.searching {
					firstMsg, firstCase = err.Error(), w.lastCase
				}
				w.searching = false
				w.lastMsg = err.Error()
				last := w.lastCase
				if len(last) <= len(firstCase) {
					firstMsg, firstCase = w.lastMsg, last
				}
				rt.Fatalf("violation")
			}
		})
	}()
	if harness != nil {
		panic(*harness)
	}
	if firstCase != nil {
		w.fail(facet, firstMsg, firstCase)
		return
	}
	if t.failed.Load() { // nothing violated: the generator is at fault
		panic(HarnessError{fmt.Errorf("%s: %s", facet, t.out.String())})
	}
}

// SortedKeys returns the keys of a map in order.
func SortedKeys[K ~string | ~int | ~int32 | ~uint32, V any](m map[K]V) []K {
	res := make([]K, 0, len(m))
	for k := range m {
		res = append(res, k)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}
