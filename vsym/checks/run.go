// Package checks decides the properties: it prepares schemas, regenerates the
// targets' code from /repo, executes that code symbolically and discharges
// the assertions with the solver.
package checks

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"vsym/codec"
	"vsym/sym"
	"vsym/wire"
)

// X is one symbolic path of an item.
type X struct {
	Text bool // strings are well-formed UTF-8 rather than ASCII
	*sym.Path
	recs []*codec.Rec
}

// Rec starts recording operations on a job's code.
func (x *X) Rec(j *codec.Job) *codec.Rec {
	r := codec.NewRec(j, x.Path)
	x.recs = append(x.recs, r)
	return r
}

func (x *X) ops() []*codec.Op {
	var out []*codec.Op
	for _, r := range x.recs {
		out = append(out, r.Ops...)
	}
	return out
}

// Item is one unit of symbolic work.
type Item struct {
	Name     string
	Target   string
	Run      func(x *X)
	Traces   int // how many model traces to validate on the real code
	MaxPaths int
	TimeMS   int
}

// Run is the context of one check run.
type Run struct {
	Prop      string
	Tier      string
	Seed      int64
	Verif     string
	Repo      string
	Env       *codec.Env
	Rng       *rand.Rand
	Start     time.Time
	Stats     sym.Stats
	Targets   []string
	Items     []*Item
	Level     string
	Bounds    []string
	Assume    []string
	Workers   int
	Known     []Known
	MaxViol   int
	Copies    bool // also code the units as copySets says
	mu        sync.Mutex
	viols     []*viol
	traces    []trace
	incon     []string
	nItems    int
	funcs     map[string]map[string]int
	samples   []string
	validated int
	confirmed []string
	knownHit  map[string]string
	items     map[string]int
	jobs      []*codec.Job
	extra     map[string]any
	fatal     []string
	skipped   int
	unconf    []string
	active    map[string]time.Time
}

// Known is a recorded finding.
type Known struct {
	Property string `json:"property"`
	Match    string `json:"match"` // exact violation key
	What     string `json:"what"`
}

type viol struct {
	item  *Item
	name  string
	model sym.Model
	ops   []*codec.Op
	notes []string
	real  []string
	cond  bool // concrete evaluation of the assertion was false
	stat  string
}

func (v *viol) key() string { return v.item.Name + " | " + v.name }

type trace struct {
	target string
	item   string
	ops    []*codec.Op // concrete
	pred   [][]string
}

// Quick reports the tier.
func (r *Run) Quick() bool { return r.Tier != "thorough" }

func (r *Run) Logf(f string, a ...any) {
	fmt.Printf("[%6.1fs] %s\n", time.Since(r.Start).Seconds(), fmt.Sprintf(f, a...))
}

// Incon notes reduced coverage.
func (r *Run) Incon(f string, a ...any) {
	r.mu.Lock()
	r.incon = append(r.incon, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

// Prepare generates and loads jobs. A schema that must compile but does not is
// reported as a violation.
func (r *Run) Prepare(jobs []*codec.Job) []*codec.Job {
	by := map[string][]*codec.Job{}
	sem := make(chan bool, r.Workers)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *codec.Job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if err := r.Env.Generate(j); err != nil {
				j.Err = err.Error()
			}
		}(j)
	}
	wg.Wait()
	var ok []*codec.Job
	for _, j := range jobs {
		if j.Err != "" {
			r.genFail(j, j.Err)
			continue
		}
		ok = append(ok, j)
		by[j.Target] = append(by[j.Target], j)
	}
	r.Logf("generated %d jobs", len(ok))
	for t := range by {
		wg.Add(1)
		go func(t string, js []*codec.Job) {
			defer wg.Done()
			be := codec.Backends[t]
			t0 := time.Now()
			if err := be.Load(r.Env, js); err != nil {
				r.mu.Lock()
				r.fatal = append(r.fatal, fmt.Sprintf("%s: %v", t, err))
				r.mu.Unlock()
			}
			r.Logf("loaded %s (%d jobs, %.1fs)", t, len(js), time.Since(t0).Seconds())
		}(t, by[t])
	}
	wg.Wait()
	var out []*codec.Job
	for _, j := range ok {
		if j.Err != "" {
			r.genFail(j, j.Err)
			continue
		}
		if j.Prog != nil {
			out = append(out, j)
		}
	}
	r.jobs = append(r.jobs, out...)
	return out
}

func (r *Run) genFail(j *codec.Job, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viols = append(r.viols, &viol{item: &Item{Name: j.Target + "/" + j.ID, Target: j.Target}, name: "generated code is usable",
		stat: "confirmed", real: []string{fmt.Sprintf("options %v", j.Opts), msg, j.Unit.Source()}})
}

// Add queues an item.
func (r *Run) Add(it *Item) { r.Items = append(r.Items, it) }

// Execute runs all queued items, validates traces and confirms violations.
func (r *Run) Execute() {
	if r.Copies {
		r.Bounds = append(r.Bounds, "every fourth unit (thorough: every one) also with -single, the last (every one) also with -minimal -inner and, for C++ and JavaScript, -compat -decnum")
	}
	items := r.Items
	r.Items = nil
	if f := os.Getenv("VSYM_ITEMS"); len(f) > 1 { // debugging aid
		var keep []*Item
		for _, it := range items {
			if strings.Contains(it.Name, f) {
				keep = append(keep, it)
			}
		}
		items = keep
	}
	r.nItems += len(items)
	ch := make(chan *Item)
	var wg sync.WaitGroup
	for w := 0; w < r.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for it := range ch {
				h := fnv.New64a()
				h.Write([]byte(it.Name))
				r.one(it, rand.New(rand.NewSource(r.Seed+int64(h.Sum64()>>1))))
			}
		}(w)
	}
	stop := make(chan struct{})
	if os.Getenv("VSYM_WATCH") != "" {
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(15 * time.Second):
				}
				r.mu.Lock()
				for n, t := range r.active {
					if d := time.Since(t); d > 10*time.Second {
						r.Logf("running %s for %.0fs", n, d.Seconds())
					}
				}
				r.mu.Unlock()
			}
		}()
	}
	for _, it := range items {
		if r.enough(it.Target) {
			r.skipped++
			continue
		}
		if time.Now().After(r.deadline()) {
			r.mu.Lock()
			r.incon = append(r.incon, it.Name+": not started before the deadline")
			r.mu.Unlock()
			continue
		}
		ch <- it
	}
	close(ch)
	wg.Wait()
	close(stop)
	r.Logf("executed %d items: %d violations, %d inconclusive", len(items), len(r.viols), len(r.incon))
	r.validate()
}

// deadline is when no further item is started: a check has 900 s, and the
// thorough tier is run by hand.
func (r *Run) deadline() time.Time {
	if r.Quick() {
		return r.Start.Add(600 * time.Second)
	}
	return r.Start.Add(3 * time.Hour)
}

func (r *Run) itemBudget() time.Duration {
	if r.Quick() {
		return 90 * time.Second
	}
	return 20 * time.Minute
}

func (r *Run) enough(target string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	n, all := 0, 0
	for _, v := range r.viols {
		if r.known(v) != nil {
			continue
		}
		all++
		if v.item.Target == target {
			n++
		}
	}
	return n >= r.MaxViol || all >= 4*r.MaxViol
}

func (r *Run) known(v *viol) *Known {
	for i := range r.Known {
		if r.Known[i].Property == r.Prop && r.Known[i].Match == v.key() {
			return &r.Known[i]
		}
	}
	return nil
}

func (r *Run) one(it *Item, rng *rand.Rand) {
	to := it.TimeMS
	if to == 0 {
		to = 20000
	}
	e := sym.NewExec(&r.Stats, to)
	defer e.Close()
	e.Deadline = time.Now().Add(r.itemBudget())
	if d := r.deadline().Add(10 * time.Second); e.Deadline.After(d) {
		e.Deadline = d
	}
	r.mu.Lock()
	if r.active == nil {
		r.active = map[string]time.Time{}
	}
	r.active[it.Name] = time.Now()
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		delete(r.active, it.Name)
		r.mu.Unlock()
	}()
	if it.MaxPaths > 0 {
		e.MaxPaths = it.MaxPaths
	}
	t0 := time.Now()
	var tr []trace
	left := it.Traces
	seen := 0
	funcs := map[string]int{}
	e.OnViol = func(p *sym.Path, v *sym.Violation) { v.Data = p.Data.(*X).ops() }
	e.Run(func(p *sym.Path) {
		x := &X{Path: p}
		p.Data = x
		it.Run(x)
		for _, rc := range x.recs {
			for f, n := range rc.S.Funcs() {
				funcs[f] += n
			}
		}
		seen++
		if left > 0 && len(x.recs) > 0 && (seen <= 2 || rng.Intn(4) == 0) {
			if t, ok := r.trace(it, x, rng); ok {
				tr = append(tr, t)
				left--
			}
		}
	})
	if os.Getenv("VSYM_ITEMS") != "" {
		r.Logf("item %s: %.2fs %d paths reached", it.Name, time.Since(t0).Seconds(), e.Reached)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, n := range e.Incon {
		r.incon = append(r.incon, it.Name+": "+n)
	}
	if e.Reached == 0 && len(e.Viols) == 0 && len(e.Incon) == 0 {
		r.incon = append(r.incon, it.Name+": no path reached the assertions (vacuous)")
	}
	for _, v := range e.Viols {
		vv := &viol{item: it, name: v.Name, model: v.Model, notes: v.Notes}
		vv.cond = v.Cond == nil || e.C.Eval(v.Cond, v.Model).IsFalse()
		if ops, ok := v.Data.([]*codec.Op); ok {
			for _, o := range ops {
				vv.ops = append(vv.ops, o.Concrete(e.C, v.Model))
			}
		}
		r.viols = append(r.viols, vv)
	}
	if len(e.Viols) == 0 {
		r.traces = append(r.traces, tr...)
	}
	fm := r.funcs[it.Target]
	if fm == nil {
		fm = map[string]int{}
		r.funcs[it.Target] = fm
	}
	for f, n := range funcs {
		fm[f] += n
	}
	r.items[it.Target]++
}

// trace picks one concrete instance of a path.
func (r *Run) trace(it *Item, x *X, rng *rand.Rand) (trace, bool) {
	var m sym.Model
	vars := x.Vars(x.PC, x.ops())
	for try := 0; try < 3; try++ {
		c := sym.Model{}
		for _, v := range vars {
			w := v.W
			if w == 0 {
				w = 1
			}
			b := new(big.Int)
			switch rng.Intn(4) {
			case 0:
				b.Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(int64(1+rng.Intn(3))))
				if b.Sign() < 0 {
					b.SetInt64(0)
				}
			default:
				b.Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(w)))
			}
			c[v.Name] = b
		}
		good := true
		for _, t := range x.PC {
			if !x.Eval(t, c).IsTrue() {
				good = false
				break
			}
		}
		if good {
			m = c
			break
		}
	}
	if m == nil {
		var ok bool
		if m, ok = x.Path.Model(); !ok {
			return trace{}, false
		}
	}
	t := trace{target: it.Target, item: it.Name}
	for _, o := range x.ops() {
		c := o.Concrete(x.Ctx, m)
		ls, ok := c.Lines(x.Ctx)
		if !ok {
			continue
		}
		t.ops = append(t.ops, c)
		t.pred = append(t.pred, ls)
	}
	return t, len(t.ops) > 0
}

// Vars collects the variables a path depends on.
func (x *X) Vars(pc []*sym.Term, ops []*codec.Op) []*sym.Term {
	ts := append([]*sym.Term{}, pc...)
	for _, o := range ops {
		ts = append(ts, o.Buf...)
		ts = append(ts, o.Res.Buf...)
		if o.Res.Ret != nil {
			ts = append(ts, o.Res.Ret)
		}
		if o.Arg != nil {
			ts = append(ts, o.Arg)
		}
		ts = append(ts, wire.Terms(o.Init)...)
		for _, a := range o.HArgs {
			if a.T != nil {
				ts = append(ts, a.T)
			}
			ts = append(ts, a.B...)
		}
	}
	return x.CollectVars(ts)
}

// validate replays traces and violations on the real generated code.
func (r *Run) validate() {
	type job struct {
		ops  []*codec.Op
		pred [][]string
		v    *viol
		item string
	}
	by := map[string][]job{}
	perTarget := 60
	if !r.Quick() {
		perTarget = 400
	}
	cnt := map[string]int{}
	rand.New(rand.NewSource(r.Seed)).Shuffle(len(r.traces), func(i, j int) { r.traces[i], r.traces[j] = r.traces[j], r.traces[i] })
	for _, t := range r.traces {
		if cnt[t.target] >= perTarget {
			continue
		}
		cnt[t.target] += len(t.ops)
		// an item may mix targets: split by the op's own target
		tg := map[string]*job{}
		for i, o := range t.ops {
			b := tg[o.Job.Target]
			if b == nil {
				b = &job{item: t.item}
				tg[o.Job.Target] = b
			}
			b.ops = append(b.ops, o)
			b.pred = append(b.pred, t.pred[i])
		}
		for k, b := range tg {
			by[k] = append(by[k], *b)
		}
	}
	r.traces = nil
	c := sym.NewCtx()
	perKey := map[string]int{}
	for _, v := range r.viols {
		if v.stat != "" {
			continue
		}
		if len(v.ops) == 0 {
			v.stat = "confirmed-model"
			continue
		}
		if !v.cond {
			v.stat = "spurious"
			r.incon = append(r.incon, v.key()+": counterexample depends on uninterpreted arithmetic")
			continue
		}
		perKey[v.item.Target]++
		if perKey[v.item.Target] > 6 && r.known(v) == nil {
			v.stat = "not-replayed"
			continue
		}
		tg := map[string]*job{}
		v.stat = "confirmed"
		for _, o := range v.ops {
			ls, ok := o.Lines(c)
			if !ok {
				v.stat = "unpredictable"
				break
			}
			b := tg[o.Job.Target]
			if b == nil {
				b = &job{v: v}
				tg[o.Job.Target] = b
			}
			b.ops = append(b.ops, o)
			b.pred = append(b.pred, ls)
		}
		for k, b := range tg {
			by[k] = append(by[k], *b)
		}
	}
	var wg sync.WaitGroup
	for t, js := range by {
		wg.Add(1)
		go func(t string, js []job) {
			defer wg.Done()
			var ops []*codec.Op
			for _, j := range js {
				ops = append(ops, j.ops...)
			}
			out, err := codec.Backends[t].Replay(r.Env, ops)
			r.mu.Lock()
			defer r.mu.Unlock()
			if err != nil {
				r.fatal = append(r.fatal, fmt.Sprintf("replay %s: %v", t, err))
				return
			}
			k := 0
			for _, j := range js {
				for i, o := range j.ops {
					got := out[k]
					k++
					p, g := strings.Join(j.pred[i], "\n"), strings.Join(got, "\n")
					if j.v != nil {
						j.v.real = append(j.v.real, o.Describe()+"\n  predicted: "+strings.ReplaceAll(p, "\n", " ")+"\n  real code: "+strings.ReplaceAll(g, "\n", " "))
						if p != g {
							j.v.stat = "mismatch"
						}
						continue
					}
					if p != g {
						r.fatal = append(r.fatal, fmt.Sprintf("trace of %s: engine and real code disagree\n%s\n  predicted: %s\n  real code: %s", j.item, o.Describe(), p, g))
					} else {
						r.validated++
						if len(r.samples) < 12 {
							r.samples = append(r.samples, o.Describe()+"\n  -> "+strings.ReplaceAll(g, "\n", " "))
						}
					}
				}
			}
		}(t, js)
	}
	wg.Wait()
	r.Logf("validated %d traces on the real code", r.validated)
}

// Finish writes the evidence, prints the verdict and returns the exit code.
func (r *Run) Finish() int {
	code := 0
	sort.SliceStable(r.viols, func(i, j int) bool { return r.viols[i].key() < r.viols[j].key() })
	n := 0
	knownSeen := map[string]bool{}
	var list []map[string]any
	for _, v := range r.viols {
		switch v.stat {
		case "mismatch", "unpredictable":
			r.fatal = append(r.fatal, "counterexample not reproduced: "+v.key()+"\n"+strings.Join(v.real, "\n"))
			continue
		case "spurious":
			continue
		}
		if k := r.known(v); k != nil {
			if !knownSeen[k.Match] {
				knownSeen[k.Match] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.What)
			}
			continue
		}
		n++
		if len(list) < 20 {
			list = append(list, map[string]any{"assertion": v.key(), "status": v.stat, "model": v.model.String(), "replay": v.real, "notes": v.notes})
		}
	}
	if n > 0 {
		code = 1
		dir := filepath.Join(r.Verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, r.Prop+".json")
		b, _ := json.MarshalIndent(map[string]any{"property": r.Prop, "violations": list, "count": n}, "", "  ")
		os.WriteFile(f, b, 0o644)
		for i, v := range list {
			if i < 4 {
				fmt.Printf("violated: %v [%v]\n", v["assertion"], v["status"])
				for _, l := range v["replay"].([]string) {
					fmt.Println("  " + strings.ReplaceAll(trunc(l, 1500), "\n", "\n  "))
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, f)
	}
	for i, f := range r.fatal {
		if i < 5 {
			fmt.Printf("ERROR %s\n", trunc(f, 3000))
		}
	}
	if len(r.fatal) > 0 && code == 0 {
		code = 2
	}
	for i, s := range r.incon {
		if i < 8 {
			fmt.Printf("INCONCLUSIVE %s\n", trunc(s, 1200))
		}
	}
	if r.nItems > 0 && len(r.incon)*4 > r.nItems && code == 0 {
		fmt.Printf("ERROR most of the work was inconclusive (%d of %d items)\n", len(r.incon), r.nItems)
		code = 2
	}
	r.evidence(n)
	r.Logf("%s %s: items=%d paths=%d queries=%d solver=%.1fs traces=%d violations=%d inconclusive=%d exit=%d", r.Prop, r.Tier, r.nItems,
		r.Stats.Paths.Load(), r.Stats.Queries.Load(), float64(r.Stats.SolverNS.Load())/1e9, r.validated, n, len(r.incon), code)
	return code
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *Run) evidence(n int) {
	fn := map[string]any{}
	total := 0
	for t, m := range r.funcs {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		total += len(ks)
		show := ks
		if len(show) > 12 {
			show = show[:12]
		}
		fn[t] = map[string]any{"count": len(ks), "examples": show}
	}
	s := &r.Stats
	cov := map[string]any{
		"programs":                      r.nItems,
		"disagreements_checked":         s.Checks.Load(),
		"samples":                       r.samples,
		"states":                        s.Paths.Load(),
		"transitions":                   s.Branches.Load() + s.Checks.Load(),
		"traces_validated_against_impl": r.validated,
		"functions_encoded":             fn,
		"bounds":                        r.Bounds,
		"queries":                       s.Queries.Load(),
		"sat":                           s.SatN.Load(),
		"unsat":                         s.UnsatN.Load(),
		"unknown":                       s.UnknownN.Load(),
		"solver_s":                      float64(s.SolverNS.Load()) / 1e9,
		"discharged_by_simplification":  s.Trivial.Load(),
		"branches_by_value_table":       s.Tables.Load(),
		"items_per_target":              r.items,
		"inconclusive":                  len(r.incon),
		"inconclusive_notes":            firstN(r.incon, 20),
		"skipped_after_violation":       r.skipped,
		"solver":                        sym.SolverName(),
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if len(r.samples) == 0 {
		cov["samples"] = []string{"none"}
	}
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"assumptions": r.Assume, "wall_s": time.Since(r.Start).Seconds(), "violations": n}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(r.Verif, "evidence", r.Prop+".json"), b, 0o644)
}

func firstN(s []string, n int) []string {
	if len(s) > n {
		s = s[:n]
	}
	out := []string{}
	for _, x := range s {
		out = append(out, trunc(x, 400))
	}
	return out
}

// NewRun prepares the context.
func NewRun(prop, tier string, seed int64, verif, repo string) (*Run, error) {
	r := &Run{Prop: prop, Copies: prop >= "C01" && prop <= "C09", Tier: tier, Seed: seed, Verif: verif, Repo: repo, Start: time.Now(), Rng: rand.New(rand.NewSource(seed)),
		Workers: runtime.NumCPU(), Level: "translation_validation", MaxViol: 3, funcs: map[string]map[string]int{}, items: map[string]int{}, extra: map[string]any{}}
	if r.Workers > 8 {
		r.Workers = 8
	}
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		var k struct {
			Findings []Known `json:"findings"`
		}
		if err := json.Unmarshal(b, &k); err != nil {
			return nil, err
		}
		r.Known = k.Findings
	}
	return r, nil
}
