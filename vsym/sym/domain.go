package sym

// Branch conditions over a single variable of at most eight bits are decided
// exactly from tables: the set of values satisfying each such conjunct of the
// path condition is computed once by evaluating it for every value. A variable
// which also occurs in a conjunct with other variables keeps going to the
// solver, except where its own conjuncts already contradict the condition.

type valueSet [4]uint64

func (s valueSet) and(o valueSet) valueSet {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}

func (s valueSet) empty() bool { return s == valueSet{} }

func fullSet(w int) valueSet {
	var s valueSet
	for i := uint64(0); i < 1<<w; i++ {
		s[i>>6] |= 1 << (i & 63)
	}
	return s
}

type domains struct {
	pos       int // conjuncts of the path condition already entered
	dom       map[*Term]valueSet
	entangled map[*Term]bool
}

// sole returns the only variable of t; many tells that there are several.
func (e *Exec) sole(t *Term) (v *Term, many bool) {
	if t.Op == OConst {
		return nil, false
	}
	if t.Op == OVar {
		return t, false
	}
	if r, ok := e.soles[t.ID]; ok {
		return r, r == manyVars
	}
	for _, a := range t.A {
		w, m := e.sole(a)
		if m || v != nil && w != nil && v != w {
			e.soles[t.ID] = manyVars
			return manyVars, true
		}
		if w != nil {
			v = w
		}
	}
	e.soles[t.ID] = v
	return v, false
}

var manyVars = &Term{}

// small tells whether t depends on one variable of at most eight bits.
func (e *Exec) small(t *Term) *Term {
	v, many := e.sole(t)
	if many || v == nil || v.W < 1 || v.W > 8 {
		return nil
	}
	return v
}

// values is the set of values of v satisfying t; false if some is undetermined
// (an uninterpreted function).
func (e *Exec) values(t, v *Term) (valueSet, bool) {
	if s, ok := e.sets[t.ID]; ok {
		return *s, true
	}
	var s valueSet
	one := map[*Term]*Term{}
	for i := uint64(0); i < 1<<v.W; i++ {
		clear(one)
		one[v] = e.C.BV(v.W, i)
		r := e.C.Subst(t, one)
		if r.Op != OConst {
			return s, false
		}
		if r.V == 1 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	e.sets[t.ID] = &s
	return s, true
}

func (p *Path) enter(t *Term) {
	if t.Op == OAnd {
		for _, a := range t.A {
			p.enter(a)
		}
		return
	}
	d := &p.doms
	if v := p.E.small(t); v != nil {
		if s, ok := p.E.values(t, v); ok {
			old, ok := d.dom[v]
			if !ok {
				old = fullSet(v.W)
			}
			d.dom[v] = old.and(s)
			return
		}
	}
	for _, v := range p.CollectVars([]*Term{t}) {
		d.entangled[v] = true
	}
}

// quick decides cond under the (feasible) path condition from the tables.
func (p *Path) quick(cond *Term) Result {
	v := p.E.small(cond)
	if v == nil {
		return Unknown
	}
	set, ok := p.E.values(cond, v)
	if !ok {
		return Unknown
	}
	d := &p.doms
	if d.dom == nil {
		d.dom, d.entangled = map[*Term]valueSet{}, map[*Term]bool{}
	}
	for ; d.pos < len(p.PC); d.pos++ {
		p.enter(p.PC[d.pos])
	}
	dom, ok := d.dom[v]
	if !ok {
		dom = fullSet(v.W)
	}
	if dom.and(set).empty() {
		p.E.Stats.Tables.Add(1)
		return Unsat
	}
	if d.entangled[v] && dom.and(set) != dom {
		return Unknown
	}
	p.E.Stats.Tables.Add(1)
	return Sat
}

// Known replaces (parts of) a condition which the tables settle on this path.
func (p *Path) Known(c *Term) *Term {
	switch c.Op {
	case OConst:
		return c
	case OAnd:
		return p.And(p.Known(c.A[0]), p.Known(c.A[1]))
	case OOr:
		return p.Or(p.Known(c.A[0]), p.Known(c.A[1]))
	case ONot:
		return p.Not(p.Known(c.A[0]))
	}
	if p.E.small(c) == nil {
		return c
	}
	if p.quick(c) == Unsat {
		return p.False()
	}
	if p.quick(p.Not(c)) == Unsat {
		return p.True()
	}
	return c
}
