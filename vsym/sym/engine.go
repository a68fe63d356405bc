package sym

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Violation is an assertion that some inputs break.
type Violation struct {
	Name  string
	Model Model
	Notes []string
	Cond  *Term // the assertion
	Data  any
}

// Model maps variable names to values; missing variables are zero.
type Model map[string]*big.Int

// Exec explores every feasible path of a run function by re-execution.
type Exec struct {
	C        *Ctx
	S        *Solver
	Stats    *Stats
	MaxPaths int
	Deadline time.Time
	Viols    []Violation
	Incon    []string // inconclusive: unknown answers, unsupported constructs, limits
	Reached  int      // paths that reached the end of the run function
	StopAt   int      // stop after this many violations
	Forks    map[string]int
	OnViol   func(p *Path, v *Violation)
	soles    map[int]*Term
	sets     map[int]*valueSet
}

func NewExec(st *Stats, timeoutMS int) *Exec {
	c := NewCtx()
	return &Exec{C: c, S: NewSolver(c, st, timeoutMS), Stats: st, MaxPaths: 4096, StopAt: 1, Forks: map[string]int{},
		soles: map[int]*Term{}, sets: map[int]*valueSet{}}
}

func (e *Exec) Close() { e.S.Close() }

// Path is one execution.
type Path struct {
	*Ctx
	E      *Exec
	PC     []*Term
	prefix []bool
	pos    int
	taken  []bool
	forks  [][]bool
	Steps  int
	Limit  int
	Notes  []string
	Data   any
	NoFork bool // speculation: a fork gives up instead
	doms   domains
}

type noFork struct{}

// Speculate runs f without forking; false means that f needs a fork, leaves
// the modelled language or fails, and that its effects have to be undone.
func (p *Path) Speculate(f func() bool) (ok bool) {
	was, steps := p.NoFork, p.Steps
	p.NoFork = true
	defer func() {
		p.NoFork = was
		if x := recover(); x != nil {
			if _, stop := x.(stopAll); stop {
				panic(x)
			}
			if u, is := x.(unsupported); is && u.why == "deadline reached" {
				panic(x)
			}
			if os.Getenv("VSYM_SPEC") != "" {
				fmt.Fprintf(os.Stderr, "speculation failed: %v\n%s\n", x, debug.Stack())
			}
			p.Steps = steps
			ok = false
		}
	}()
	return f()
}

type abort struct{ why string }
type unsupported struct{ why string }
type stopAll struct{}

// Unsupported ends the path and marks the run inconclusive.
func Unsupported(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// IsEngineSignal tells panics of the engine from panics of modelled code.
func IsEngineSignal(x any) bool {
	switch x.(type) {
	case abort, unsupported, stopAll, noFork:
		return true
	}
	return false
}

// Step counts executed instructions against a limit (non-termination guard).
func (p *Path) Step() {
	p.Steps++
	if p.Limit > 0 && p.Steps > p.Limit {
		panic(unsupported{"step limit reached"})
	}
	if p.Steps&0xffff == 0 && !p.E.Deadline.IsZero() && time.Now().After(p.E.Deadline) {
		panic(unsupported{"deadline reached"})
	}
}

// Run explores all paths. Violations and inconclusive notes accumulate in e.
func (e *Exec) Run(f func(p *Path)) {
	work := [][]bool{nil}
	n := 0
	for len(work) > 0 {
		if len(e.Viols) >= e.StopAt {
			return
		}
		if n >= e.MaxPaths {
			e.Incon = append(e.Incon, fmt.Sprintf("path limit %d reached", e.MaxPaths))
			return
		}
		if !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
			e.Incon = append(e.Incon, "deadline reached")
			return
		}
		pre := work[len(work)-1]
		work = work[:len(work)-1]
		p := &Path{Ctx: e.C, E: e, prefix: pre, Limit: 50_000_000}
		n++
		e.Stats.Paths.Add(1)
		done := e.one(p, f)
		if done {
			e.Reached++
		}
		work = append(work, p.forks...)
	}
}

func (e *Exec) one(p *Path, f func(p *Path)) (done bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case abort:
			case stopAll:
			case unsupported:
				e.Incon = append(e.Incon, x.why)
			default:
				e.Incon = append(e.Incon, fmt.Sprintf("engine panic: %v\n%s", r, debug.Stack()))
			}
		}
	}()
	f(p)
	return true
}

// Abort ends the path silently (infeasible or uninteresting).
func (p *Path) Abort(why string) { panic(abort{why}) }

func (p *Path) sat(extra *Term) Result {
	if extra.IsFalse() {
		return Unsat
	}
	if r := p.quick(extra); r != Unknown {
		return r
	}
	r, _ := p.E.S.Check(append(append([]*Term{}, p.PC...), extra), nil)
	return r
}

// Branch decides a condition, forking the exploration when both sides are feasible.
func (p *Path) Branch(cond *Term) bool {
	if cond.W != 0 {
		panic("Branch on non-Bool")
	}
	if cond.Op == OConst {
		return cond.V == 1
	}
	for _, t := range p.PC {
		if t == cond {
			return true
		}
		if t.Op == ONot && t.A[0] == cond || cond.Op == ONot && cond.A[0] == t {
			return false
		}
	}
	if p.NoFork {
		panic(noFork{})
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.take(cond, d)
		return d
	}
	p.E.Stats.Branches.Add(1)
	if !p.E.Deadline.IsZero() && time.Now().After(p.E.Deadline) {
		panic(unsupported{"deadline reached"})
	}
	t, f := p.sat(cond), Unsat
	if t != Unsat {
		f = p.sat(p.Not(cond))
	} else {
		f = Sat // the path itself is feasible
	}
	if t == Unknown || f == Unknown {
		panic(unsupported{"solver unknown at a branch"})
	}
	var d bool
	switch {
	case t == Sat && f == Sat:
		d = true
		alt := append(append([]bool{}, p.taken...), false)
		p.forks = append(p.forks, alt)
	case t == Sat:
		d = true
	default:
		d = false
	}
	p.pos++
	p.prefix = append(p.prefix[:len(p.prefix):len(p.prefix)], d)
	p.take(cond, d)
	return d
}

func (p *Path) take(cond *Term, d bool) {
	p.taken = append(p.taken, d)
	if d {
		p.PC = append(p.PC, cond)
	} else {
		p.PC = append(p.PC, p.Not(cond))
	}
}

// Choose is a nondeterministic choice among n alternatives (a symbolic index).
func (p *Path) Choose(name string, n int) int {
	v := p.Var(name, 16)
	p.Assume(p.Ult(v, p.BV(16, uint64(n))))
	for i := 0; i < n-1; i++ {
		if p.Branch(p.Eq(v, p.BV(16, uint64(i)))) {
			return i
		}
	}
	return n - 1
}

// Assume constrains the rest of the path.
func (p *Path) Assume(cond *Term) {
	if cond.IsTrue() {
		return
	}
	if cond.IsFalse() {
		panic(abort{"assume false"})
	}
	if p.pos >= len(p.prefix) {
		switch p.sat(cond) {
		case Unsat:
			panic(abort{"assume unsat"})
		case Unknown:
			panic(unsupported{"solver unknown at an assumption"})
		}
	}
	p.PC = append(p.PC, cond)
}

// AssumeQuiet constrains without a feasibility query (caller knows it is feasible).
func (p *Path) AssumeQuiet(cond *Term) {
	if cond.IsFalse() {
		panic(abort{"assume false"})
	}
	if !cond.IsTrue() {
		p.PC = append(p.PC, cond)
	}
}

// Concretize picks feasible constants for t one path at a time.
func (p *Path) Concretize(t *Term) *Term {
	for i := 0; ; i++ {
		if t.Op == OConst {
			return t
		}
		if p.NoFork {
			panic(noFork{})
		}
		if i > 300 {
			Unsupported("concretization of %s has too many values", t)
		}
		// Deterministic choice: the solver is re-asked on replayed prefixes, so
		// pick the smallest value by bisection-free model then fix by Branch.
		v := p.pick(t)
		if p.Branch(p.Eq(t, v)) {
			return v
		}
	}
}

// pick returns the smallest feasible value of t (deterministic across re-execution).
func (p *Path) pick(t *Term) *Term {
	r, m := p.E.S.Check(p.PC, []*Term{t})
	if r != Sat {
		Unsupported("cannot concretize %s: %v", t, r)
	}
	best := m[t]
	lo := new(big.Int)
	// binary search for the minimum
	for lo.Cmp(best) < 0 {
		mid := new(big.Int).Add(lo, best)
		mid.Rsh(mid, 1)
		c := p.And(p.Ule(p.BigBV(t.W, lo), t), p.Ule(t, p.BigBV(t.W, mid)))
		r, m := p.E.S.Check(append(append([]*Term{}, p.PC...), c), []*Term{t})
		switch r {
		case Sat:
			best = m[t]
		case Unsat:
			lo = mid.Add(mid, big.NewInt(1))
		default:
			Unsupported("unknown while concretizing")
		}
	}
	return p.BigBV(t.W, best)
}

// Feasible tells whether cond can hold on this path.
func (p *Path) Feasible(cond *Term) bool {
	r := p.sat(cond)
	if r == Unknown {
		Unsupported("solver unknown at a feasibility query")
	}
	return r == Sat
}

// Check asserts cond on this path; a violation ends the path.
func (p *Path) Check(name string, cond *Term) bool {
	p.E.Stats.Checks.Add(1)
	if cond.IsTrue() {
		p.E.Stats.Trivial.Add(1)
		return true
	}
	vars := p.CollectVars(append([]*Term{cond}, p.PC...))
	r, m := p.E.S.Check(append(append([]*Term{}, p.PC...), p.Not(cond)), vars)
	switch r {
	case Unsat:
		return true
	case Unknown:
		p.E.Incon = append(p.E.Incon, "solver unknown: "+name)
		return false
	}
	mod := Model{}
	for t, v := range m {
		mod[t.Name] = v
	}
	v := Violation{Name: name, Model: mod, Notes: append([]string{}, p.Notes...), Cond: cond}
	if p.E.OnViol != nil {
		p.E.OnViol(p, &v)
	}
	p.E.Viols = append(p.E.Viols, v)
	panic(abort{"violated"})
}

// Model returns values of all variables satisfying the path condition.
func (p *Path) Model(extra ...*Term) (Model, bool) {
	conj := append(append([]*Term{}, p.PC...), extra...)
	vars := p.CollectVars(conj)
	r, m := p.E.S.Check(conj, vars)
	if r != Sat {
		return nil, false
	}
	mod := Model{}
	for t, v := range m {
		mod[t.Name] = v
	}
	return mod, true
}

func (p *Path) CollectVars(ts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	st := append([]*Term{}, ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if t.Op == OConst || seen[t.ID] {
			continue
		}
		seen[t.ID] = true
		if t.Op == OVar {
			out = append(out, t)
		}
		st = append(st, t.A...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// Eval evaluates a term under a model (floating-point functions natively).
func (c *Ctx) Eval(t *Term, m Model) *Term {
	memo := map[int]*Term{}
	var ev func(t *Term) *Term
	ev = func(t *Term) *Term {
		if t.Op == OConst {
			return t
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		var r *Term
		if t.Op == OVar {
			v := m[t.Name]
			if v == nil {
				v = new(big.Int)
			}
			if t.W == 0 {
				r = c.Bool(v.Sign() != 0)
			} else {
				r = c.BigBV(t.W, v)
			}
		} else {
			a := make([]*Term, len(t.A))
			for i, x := range t.A {
				a[i] = ev(x)
			}
			r = c.rebuild(t, a)
		}
		memo[t.ID] = r
		return r
	}
	return ev(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case ONot:
		return c.Not(a[0])
	case ONeg:
		return c.Neg(a[0])
	case OAnd:
		return c.And(a[0], a[1])
	case OOr:
		return c.Or(a[0], a[1])
	case OXor:
		return c.Xor(a[0], a[1])
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OShl, OLshr, OAshr:
		return c.arith(t.Op, a[0], a[1])
	case OConcat:
		return c.Concat(a[0], a[1])
	case OExtract:
		return c.Extract(a[0], int(t.V)+t.W-1, int(t.V))
	case OZext:
		return c.Zext(a[0], t.W)
	case OSext:
		return c.Sext(a[0], t.W)
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OEq:
		return c.Eq(a[0], a[1])
	case OUlt, OUle, OSlt, OSle:
		return c.cmp(t.Op, a[0], a[1])
	case OUF:
		return c.UF(t.Name, t.W, a...)
	}
	panic("rebuild")
}

// Subst replaces variables by terms.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var ev func(t *Term) *Term
	ev = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if t.Op == OConst || t.Op == OVar {
			return t
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		a := make([]*Term, len(t.A))
		for i, x := range t.A {
			a[i] = ev(x)
		}
		r := c.rebuild(t, a)
		memo[t.ID] = r
		return r
	}
	return ev(t)
}

// BytesLE joins byte terms, first byte lowest.
func (c *Ctx) BytesLE(b []*Term) *Term {
	r := b[0]
	for _, x := range b[1:] {
		r = c.Concat(x, r)
	}
	return r
}

func (m Model) String() string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=0x%x ", k, m[k])
	}
	return sb.String()
}
