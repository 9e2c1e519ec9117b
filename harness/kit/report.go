package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Report collects what one check observed and writes the verdict.
type Report struct {
	Prop  string
	Tier  string
	Seed  int64
	Scale int // 1 quick, more for thorough
	Rule  string
	Level string

	mu       sync.Mutex
	start    time.Time
	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	samples  []string
	assume   []string
	extra    map[string]interface{}
}

// Out is where evidence and replays go.
var Out = func() string {
	if d := os.Getenv("VH_OUT"); d != "" {
		return d
	}
	return "/verif"
}()

// NewReport reads seed and tier from the environment.
func NewReport(prop, tier, rule string) *Report {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	r := &Report{Prop: prop, Tier: tier, Seed: seed, Scale: 1, Rule: rule, Level: "exploration",
		start: time.Now(), distinct: map[uint64]struct{}{}, counts: map[string]int64{}, extra: map[string]interface{}{}}
	if strings.Contains("C10 C11 C12 C13 C14 C17 C22", prop) {
		if tier == "thorough" { // one turn of these takes longer
			r.Scale = 12
		}
	} else {
		r.Scale = 3
		if tier == "thorough" {
			r.Scale = 40
		}
	}
	if s, err := strconv.Atoi(os.Getenv("VH_SCALE")); err == nil && s > 0 {
		r.Scale = s
	}
	return r
}

// Eval counts one judged case; nontrivial ones are counted once per signature.
func (r *Report) Eval(nontrivial bool, sig ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if nontrivial {
		h := fnv.New64a()
		for _, s := range sig {
			h.Write([]byte(s))
			h.Write([]byte{0})
		}
		r.distinct[h.Sum64()] = struct{}{}
	}
}

// Merge adds cases judged elsewhere.
func (r *Report) Merge(evals int64, sigs []uint64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals += evals
	for _, s := range sigs {
		r.distinct[s] = struct{}{}
	}
}

// Count adds n to a named counter of the evidence.
func (r *Report) Count(name string, n int64) {
	r.mu.Lock()
	r.counts[name] += n
	r.mu.Unlock()
}

// Max keeps the largest value of a named counter.
func (r *Report) Max(name string, n int64) {
	r.mu.Lock()
	if n > r.counts[name] {
		r.counts[name] = n
	}
	r.mu.Unlock()
}

// Get reads a counter.
func (r *Report) Get(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counts[name]
}

// Sample keeps a few cases as text.
func (r *Report) Sample(f string, a ...interface{}) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(f, a...))
	}
	r.mu.Unlock()
}

// Assume notes an assumption.
func (r *Report) Assume(s string) { r.assume = append(r.assume, s) }

// Set stores an extra value in the evidence.
func (r *Report) Set(k string, v interface{}) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

func (r *Report) write(violations int) {
	cov := map[string]interface{}{
		"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.Rule, "samples": r.samples,
	}
	if r.samples == nil {
		cov["samples"] = []string{}
	}
	ks := make([]string, 0)
	for k := range r.counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	obs := map[string]int64{}
	for _, k := range ks {
		obs[k] = r.counts[k]
	}
	cov["observed"] = obs
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": violations,
	}
	if len(r.assume) > 0 {
		ev["assumptions"] = r.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(Out, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(Out, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

var failMu sync.Mutex

// Violation ends the run: it writes the witness, prints the line and exits 1.
func (r *Report) Violation(summary string, witness ...string) {
	failMu.Lock() // never released: the first violation is the verdict
	dir := filepath.Join(Out, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-%s.txt", r.Prop, r.Seed, r.Tier))
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s, tier %s, seed %d\n%s\n\n", r.Prop, r.Tier, r.Seed, summary)
	for _, w := range witness {
		sb.WriteString(w)
		sb.WriteByte('\n')
	}
	fmt.Fprintf(&sb, "\nre-run: VERIF_SEED=%d /verif/check.sh %s %s\n", r.Seed, r.Prop, r.Tier)
	os.WriteFile(path, []byte(sb.String()), 0o644)
	r.mu.Lock()
	r.write(1)
	KillAll()
	fmt.Printf("%s: %s\n", r.Prop, summary)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	os.Exit(1)
}

// Inconclusive ends the run without a verdict.
func (r *Report) Inconclusive(f string, a ...interface{}) {
	failMu.Lock()
	KillAll()
	fmt.Fprintf(os.Stderr, "%s: INCONCLUSIVE: %s\n", r.Prop, fmt.Sprintf(f, a...))
	os.Exit(3)
}

// Require turns a run that observed too little into an inconclusive one.
func (r *Report) Require(name string, atLeast int64) {
	if r.Get(name) < atLeast {
		r.Inconclusive("observed only %d of %q, need %d", r.Get(name), name, atLeast)
	}
}

// Done writes the evidence and exits 0.
func (r *Report) Done() {
	failMu.Lock()
	r.mu.Lock()
	if r.evals == 0 || len(r.distinct) == 0 {
		r.mu.Unlock()
		KillAll()
		fmt.Fprintf(os.Stderr, "%s: INCONCLUSIVE: nothing observed\n", r.Prop)
		os.Exit(3)
	}
	r.write(0)
	KillAll()
	fmt.Printf("%s held on %d judged cases (%d distinct non-trivial), %.1fs\n", r.Prop, r.evals, len(r.distinct), time.Since(r.start).Seconds())
	os.Exit(0)
}
