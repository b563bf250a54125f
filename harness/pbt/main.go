package pbt

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

const (
	exitViolation = 1
	exitHarness   = 3
	exitRace      = 66

	// A case that burns this much processor time, or sits blocked this long without using the
	// processor, hangs: cases take milliseconds. Processor time does not depend on machine load.
	hangCPU     = 60 * time.Second
	blockedWall = 90 * time.Second
	blockedCPU  = 500 * time.Millisecond
)

func setFlag(name, value string) { Must(flag.Set(name, value)) }

func envDefault(name, value string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return value
}

// Main runs the property named by the first argument and exits.
func Main(properties ...Property) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check ID [--replay FILE]")
		os.Exit(exitHarness)
	}
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", envDefault("VERIF_SHRINK", "12s"))

	var prop *Property
	for i := range properties {
		if properties[i].ID == os.Args[1] {
			prop = &properties[i]
		}
	}
	if prop == nil {
		fmt.Fprintln(os.Stderr, "no such property here:", os.Args[1])
		os.Exit(exitHarness)
	}
	if prop.Level == "" {
		prop.Level = "exploration"
	}
	if prop.Memory > 0 {
		Must(syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: prop.Memory, Max: prop.Memory}))
	}
	readKnownFindings(filepath.Join(envDefault("VERIF_HOME", "/verif"), "known_findings.txt"), prop.ID)
	switch {
	case len(os.Args) >= 4 && os.Args[2] == "--replay":
		os.Exit(replay(prop, os.Args[3]))
	case os.Getenv("VERIF_WORKER") != "":
		os.Exit(work(prop))
	default:
		os.Exit(supervise(prop))
	}
}

func replay(prop *Property, path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
		return exitHarness
	}
	var f Failure
	if err = json.Unmarshal(data, &f); err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
		return exitHarness
	}
	for _, facet := range prop.Facets {
		if facet.Name != f.Facet {
			continue
		}
		ctx := &Ctx{Tier: envDefault("VERIF_TIER", "quick"), replaying: true}
		if err = safely(ctx, func(c *Ctx) error { return facet.replay(c, f.Case) }); err != nil {
			fmt.Printf("%s/%s: %v\n", prop.ID, facet.Name, err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
			return exitViolation
		}
		fmt.Printf("%s/%s: held on the replayed case\n", prop.ID, facet.Name)
		return 0
	}
	fmt.Fprintln(os.Stderr, "replay: no facet", f.Facet)
	return exitHarness
}

func work(prop *Property) (code int) {
	debug.SetMaxStack(256 << 20)
	seed, _ := strconv.ParseUint(envDefault("VERIF_SEED", "1"), 10, 64)
	shard, _ := strconv.Atoi(envDefault("VERIF_SHARD", "0"))
	shards, _ := strconv.Atoi(envDefault("VERIF_SHARDS", "1"))
	limit, _ := time.ParseDuration(envDefault("VERIF_LIMIT", "120s"))
	dir := os.Getenv("VERIF_WORKER")
	w := &worker{
		prop: prop, tier: envDefault("VERIF_TIER", "quick"), seed: seed, shard: shard, shards: shards,
		hashes: map[uint64]struct{}{}, deadline: time.Now().Add(limit), perFacet: map[string]int{},
		rep: report{Facets: map[string]int64{}, Labels: map[string]int64{}},
	}
	var err error
	w.journal, err = os.Create(filepath.Join(dir, "journal.json"))
	Must(err)

	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(HarnessError); ok {
				fmt.Fprintln(os.Stderr, h.Error())
				if os.Getenv("VERIF_DEBUG") != "" {
					debug.PrintStack()
				}
				code = exitHarness
				return
			}
			panic(p)
		}
	}()
	go w.watchdog(dir)
	only := os.Getenv("VERIF_FACET")
	for _, facet := range prop.Facets {
		if only != "" && facet.Name != only {
			continue
		}
		start := time.Now()
		facet.run(w)
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "shard %d %s: %v, %d cases\n", shard, facet.Name, time.Since(start).Round(time.Millisecond), w.rep.Facets[facet.Name])
		}
	}
	w.finish(dir)
	return 0
}

func (w *worker) finish(dir string) {
	for h := range w.hashes {
		w.rep.Hashes = append(w.rep.Hashes, h)
	}
	data, err := json.Marshal(w.rep)
	Must(err)
	tmp := filepath.Join(dir, "report.tmp")
	Must(os.WriteFile(tmp, data, 0o644))
	Must(os.Rename(tmp, filepath.Join(dir, "report.json")))
}

// watchdog turns a case that cannot end into a violation.
func (w *worker) watchdog(dir string) {
	for range time.Tick(time.Second) {
		w.watch.mu.Lock()
		active, started, cpu0, facet, raw := w.watch.active, w.watch.started, w.watch.cpu, w.watch.facet, w.watch.raw
		w.watch.mu.Unlock()
		if !active {
			continue
		}
		cpu, wall := cpuTime()-cpu0, time.Since(started)
		if cpu > hangCPU || wall > blockedWall && cpu < blockedCPU {
			f := Failure{Property: w.prop.ID, Facet: facet, Case: raw,
				Message: fmt.Sprintf("hangs: still running after %v (%v of processor time)", wall.Round(time.Second), cpu.Round(time.Second))}
			data, _ := json.Marshal(f)
			_ = os.WriteFile(filepath.Join(dir, "hang.json"), data, 0o644)
			os.Exit(exitViolation)
		}
	}
}

type outcome struct {
	rep    *report
	fail   *Failure // the worker died on this case
	err    error    // no verdict
	stderr string
}

func supervise(prop *Property) int {
	start := time.Now()
	tier := envDefault("VERIF_TIER", "quick")
	verif := envDefault("VERIF_HOME", "/verif")
	shards := prop.Shards
	if shards == 0 {
		shards = 1
	}
	if tier == "thorough" {
		shards = 8
	}
	if s := os.Getenv("VERIF_SHARDS"); s != "" {
		shards, _ = strconv.Atoi(s)
	}
	base, err := os.MkdirTemp("", "verif-"+prop.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	defer func() { _ = os.RemoveAll(base) }()

	outs := make([]outcome, shards)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i] = runWorker(prop, base, tier, i, shards)
		}()
	}
	wg.Wait()

	total := report{Facets: map[string]int64{}, Labels: map[string]int64{}}
	hashes := map[uint64]struct{}{}
	var harness []string
	for _, o := range outs {
		if o.err != nil {
			harness = append(harness, o.err.Error()+"\n"+o.stderr)
		}
		if o.fail != nil {
			total.Failures = append(total.Failures, *o.fail)
		}
		if o.rep == nil {
			continue
		}
		total.Evaluations += o.rep.Evaluations
		total.Execs += o.rep.Execs
		total.Capped = total.Capped || o.rep.Capped
		for k, v := range o.rep.Facets {
			total.Facets[k] += v
		}
		for k, v := range o.rep.Labels {
			total.Labels[k] += v
		}
		for _, h := range o.rep.Hashes {
			hashes[h] = struct{}{}
		}
		total.Samples = append(total.Samples, o.rep.Samples...)
		total.Failures = append(total.Failures, o.rep.Failures...)
	}
	// one failure per facet, the smallest case
	best := map[string]Failure{}
	for _, f := range total.Failures {
		if b, ok := best[f.Facet]; !ok || len(f.Case) < len(b.Case) {
			best[f.Facet] = f
		}
	}

	writeEvidence(prop, verif, tier, total, len(hashes), len(best), time.Since(start))

	for _, key := range SortedKeys(knownFindings) {
		for l := range total.Labels {
			if strings.HasSuffix(l, ": "+knownLabel+key) {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop.ID, key, knownFindings[key])
				break
			}
		}
	}
	if len(best) > 0 {
		for _, name := range SortedKeys(best) {
			f := best[name]
			path := saveReplay(verif, f)
			msg := f.Message
			if len(msg) > 3000 {
				msg = msg[:3000] + "..."
			}
			fmt.Printf("%s/%s: %s\n", prop.ID, f.Facet, msg)
			if len(f.Case) < 2000 {
				fmt.Printf("  case: %s\n", f.Case)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
		}
		return exitViolation
	}
	if len(harness) > 0 {
		fmt.Fprintf(os.Stderr, "%s: no verdict: %s\n", prop.ID, strings.Join(harness, "\n"))
		return exitHarness
	}
	note := ""
	if total.Capped {
		note = " (time limit reached)"
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %d executions, %.1fs%s\n",
		prop.ID, total.Evaluations, len(hashes), total.Execs, time.Since(start).Seconds(), note)
	return 0
}

func runWorker(prop *Property, base, tier string, i, shards int) (o outcome) {
	dir := filepath.Join(base, "w"+strconv.Itoa(i))
	if o.err = os.MkdirAll(filepath.Join(dir, "scratch"), 0o755); o.err != nil {
		return o
	}
	limit := envDefault("VERIF_LIMIT", map[string]string{"quick": "200s", "thorough": "600s"}[tier])
	cmd := exec.Command(os.Args[0], prop.ID)
	cmd.Dir = filepath.Join(dir, "scratch")
	cmd.Env = append(os.Environ(), "VERIF_WORKER="+dir, "VERIF_SCRATCH="+filepath.Join(dir, "scratch"),
		"VERIF_SHARD="+strconv.Itoa(i), "VERIF_SHARDS="+strconv.Itoa(shards), "VERIF_LIMIT="+limit,
		"TMPDIR="+filepath.Join(dir, "scratch"), "GOTRACEBACK=all",
		fmt.Sprintf("GORACE=halt_on_error=1 exitcode=%d", exitRace))
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	if os.Getenv("VERIF_TIMES") != "" {
		cmd.Stderr = os.Stderr
	}
	err := cmd.Run()
	text := stderr.String()
	o.stderr = text
	if len(o.stderr) > 4000 {
		o.stderr = o.stderr[:4000]
	}
	var exit *exec.ExitError
	switch {
	case err == nil:
		data, rerr := os.ReadFile(filepath.Join(dir, "report.json"))
		if rerr != nil {
			// exit 0 without a report: the code under test ended the process
			o.fail = fromJournal(dir, "the process exited with status 0 in the middle of a case")
			if o.fail == nil {
				o.err = rerr
			}
			return o
		}
		o.rep = new(report)
		if o.err = json.Unmarshal(data, o.rep); o.err != nil {
			o.rep = nil
		}
		return o
	case !errors.As(err, &exit):
		o.err = err
		return o
	}
	code := exit.ExitCode()
	o.err = fmt.Errorf("worker: %v", err)
	switch {
	case code == exitViolation:
		data, rerr := os.ReadFile(filepath.Join(dir, "hang.json"))
		var f Failure
		if rerr == nil && json.Unmarshal(data, &f) == nil {
			o.fail, o.err = &f, nil
		} else {
			o.setFail(dir, "the process exited with status 1 in the middle of a case")
		}
	case code == exitRace && prop.Race:
		o.setFail(dir, "race detector:\n"+excerpt(text, "WARNING: DATA RACE"))
	case code == 2 && blamesRepo(text, prop.Memory > 0):
		o.setFail(dir, "the process died:\n"+excerpt(text, "fatal error:", "panic:"))
	}
	return o
}

func (o *outcome) setFail(dir, msg string) {
	if f := fromJournal(dir, msg); f != nil {
		o.fail, o.err = f, nil
	}
}

// blamesRepo tells if a crash report is a Go crash with the code under test on a stack of it, and
// not a shortage of memory, unless it is due to a limit of our own.
func blamesRepo(text string, limited bool) bool {
	if strings.Contains(text, "harness: ") ||
		!limited && (strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate")) {
		return false
	}
	if !strings.Contains(text, "fatal error:") && !strings.Contains(text, "panic:") {
		return false
	}
	first := text
	if i := strings.Index(text, "\ngoroutine "); i >= 0 {
		first = text[i:]
		if strings.Contains(text, "concurrent map") {
			return strings.Contains(first, "/repo/")
		}
		if j := strings.Index(first[1:], "\n\n"); j >= 0 {
			first = first[:j+1]
		}
	}
	return strings.Contains(first, "/repo/")
}

func excerpt(text string, marks ...string) string {
	for _, m := range marks {
		if i := strings.Index(text, m); i >= 0 {
			text = text[i:]
			break
		}
	}
	if len(text) > 2500 {
		text = text[:2500]
	}
	return text
}

func fromJournal(dir, msg string) *Failure {
	data, err := os.ReadFile(filepath.Join(dir, "journal.json"))
	var f Failure
	if err != nil || json.Unmarshal(data, &f) != nil || f.Facet == "" {
		return nil
	}
	f.Message = msg
	return &f
}

func saveReplay(verif string, f Failure) string {
	dir := filepath.Join(verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	data, _ := json.MarshalIndent(f, "", " ")
	path := filepath.Join(dir, f.Property+"-"+f.Facet+".json")
	if err := os.WriteFile(path, append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "replay file:", err)
	}
	return path
}

func writeEvidence(prop *Property, verif, tier string, t report, distinct, violations int, wall time.Duration) {
	seed, _ := strconv.Atoi(envDefault("VERIF_SEED", "1"))
	samples := make([]any, 0, 12)
	seen := map[string]int{}
	sort.SliceStable(t.Samples, func(i, j int) bool { return t.Samples[i].Facet < t.Samples[j].Facet })
	for _, s := range t.Samples {
		if seen[s.Facet] < 2 && len(samples) < 40 {
			seen[s.Facet]++
			samples = append(samples, map[string]any{"facet": s.Facet, "case": s.Case})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none: no small non-trivial case")
	}
	ev := map[string]any{
		"property": prop.ID, "tier": tier, "seed": seed, "level": prop.Level,
		"coverage": map[string]any{
			"evaluations":         t.Evaluations,
			"distinct_nontrivial": distinct,
			"rule":                prop.Rule,
			"samples":             samples,
			"executions":          t.Execs,
			"cases_per_facet":     t.Facets,
			"classes":             t.Labels,
			"time_limit_reached":  t.Capped,
		},
		"assumptions": append([]string{}, prop.Assumptions...),
		"wall_s":      float64(int(wall.Seconds()*100)) / 100,
		"violations":  violations,
	}
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	if err := os.WriteFile(filepath.Join(dir, prop.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}
