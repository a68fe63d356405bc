package dyn

import (
	"math/big"
	"math/bits"

	"vsym/sym"
)

// Value of the modelled program:
//
//	nil           None / null
//	Undef         undefined
//	bool          concrete boolean          *sym.Term (W=0)  symbolic boolean
//	int64         concrete integer          Int              symbolic or large integer
//	Big           JavaScript BigInt around one of the integer forms
//	float64       concrete float            Flt              symbolic double (64 bits)
//	string        concrete text             *Str             symbolic code units
//	*Obj *List *Buf *View *Func *Bound *Class Native *Union ...
type Value any

type Undef struct{}

// Int is an exact signed integer as a bit vector of sufficient width.
type Int struct{ T *sym.Term }

type Big struct{ V Value }

type Flt struct{ T *sym.Term }

// Str is text as UTF-16/UCS code units of 16 bits.
type Str struct {
	U      []*sym.Term
	Opaque bool // contents unknown (decoded from non-ASCII bytes)
}

// List is a list, tuple or array.
type List struct {
	E     []Value
	Tuple bool
}

// Buf is a byte store; View is a window of it.
type Buf struct {
	B        []Value // *sym.Term of 8 bits
	ReadOnly bool
}

type View struct {
	Buf    *Buf
	Off, N int
	Kind   string // bytes, bytearray, memoryview, Uint8Array, ArrayBuffer, DataView
}

// Obj is an instance, a plain object or an environment of properties.
type Obj struct {
	Class *Class
	Proto *Obj
	F     map[string]*Value
	Keys  []string
	Acc   map[string]*Accessor
	Fn    *Func // callable
}

type Accessor struct {
	Get, Set Value
	Conf     bool // may be redefined
}

type Class struct {
	Name  string
	Bases []*Class
	F     map[string]*Value
	Keys  []string
	Enum  []EnumMember
}

type EnumMember struct {
	Name string
	V    int64
}

// EnumVal is a member of an enum class given by its value.
type EnumVal struct {
	C *Class
	V Value // integer
}

// Union is one of several values, by guard; the last guard is implied.
type Union struct {
	C []*sym.Term
	V []Value
}

type Native struct {
	Name string
	Fn   func(m *M, this Value, a []Value, kw map[string]Value) Value
}

type Bound struct {
	This Value
	Fn   Value
}

// M is one path's machine: term building, the write journal and step counts.
type M struct {
	P      *sym.Path
	jr     []undo
	depth  int
	Called map[string]int
	frozen map[any]bool
}

type undo struct {
	p   *Value
	old Value
	fn  func() // structural undo (key removal)
}

func NewM(p *sym.Path) *M { return &M{P: p, Called: map[string]int{}} }

// Set writes a cell through the journal.
func (m *M) Set(p *Value, v Value) {
	if m.depth > 0 {
		m.jr = append(m.jr, undo{p: p, old: *p})
	}
	*p = v
}

func (m *M) onUndo(f func()) {
	if m.depth > 0 {
		m.jr = append(m.jr, undo{fn: f})
	}
}

func (m *M) rollback(mark int) {
	for i := len(m.jr) - 1; i >= mark; i-- {
		u := m.jr[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
	}
	m.jr = m.jr[:mark]
}

// Merge runs both arms of a symbolic condition without forking and joins
// their effects and results; ok=false (and no effect) when that is not
// possible. Each arm reports whether it ended normally.
func (m *M) Merge(c *sym.Term, arm1, arm2 func() (Value, bool)) (Value, bool) {
	if m.depth > 12 {
		return nil, false
	}
	mark := len(m.jr)
	m.depth++
	defer func() {
		m.depth--
		if m.depth == 0 {
			m.jr = m.jr[:0]
		}
	}()
	type w struct {
		old, v1 Value
	}
	order := []*Value{}
	cells := map[*Value]*w{}
	var res Value
	ok := m.P.Speculate(func() bool {
		r1, ok := arm1()
		if !ok {
			return false
		}
		for _, u := range m.jr[mark:] {
			if u.fn != nil {
				return false
			}
			if cells[u.p] == nil {
				cells[u.p] = &w{old: u.old}
				order = append(order, u.p)
			}
		}
		for _, p := range order {
			cells[p].v1 = *p
		}
		m.rollback(mark)
		r2, ok := arm2()
		if !ok {
			return false
		}
		for _, u := range m.jr[mark:] {
			if u.fn != nil {
				return false
			}
			if cells[u.p] == nil {
				cells[u.p] = &w{old: u.old, v1: u.old}
				order = append(order, u.p)
			}
		}
		merged := make([]Value, len(order))
		for i, p := range order {
			v, ok := m.Ite(c, cells[p].v1, *p)
			if !ok {
				return false
			}
			merged[i] = v
		}
		v, ok := m.Ite(c, r1, r2)
		if !ok {
			return false
		}
		res = v
		m.rollback(mark)
		for i, p := range order {
			m.Set(p, merged[i])
		}
		return true
	})
	if !ok {
		m.rollback(mark)
		return nil, false
	}
	return res, true
}

// Ite joins two values under a condition.
func (m *M) Ite(c *sym.Term, a, b Value) (Value, bool) {
	if c.IsTrue() {
		return a, true
	}
	if c.IsFalse() {
		return b, true
	}
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil, true
		}
	case Undef:
		if _, ok := b.(Undef); ok {
			return a, true
		}
	case bool, *sym.Term:
		if isBool(b) {
			p, q := m.boolT(a), m.boolT(b)
			if p.W == 0 && q.W == 0 {
				return m.mkBool(m.P.Ite(c, p, q)), true
			}
			if p.W == q.W { // buffer bytes
				return m.P.Ite(c, p, q), true
			}
			return nil, false
		}
	case int64, Int:
		if isInt(b) {
			if xi, ok := a.(int64); ok {
				if yi, ok := b.(int64); ok && xi == yi {
					return a, true
				}
			}
			p, q := m.same(a, b)
			return m.mk(m.P.Ite(c, p, q)), true
		}
	case Big:
		if y, ok := b.(Big); ok {
			v, ok := m.Ite(c, x.V, y.V)
			return Big{v}, ok
		}
	case float64, Flt:
		if isFlt(b) {
			return m.mkFlt(m.P.Ite(c, m.fltT(a), m.fltT(b))), true
		}
	case string, *Str:
		p, ok1 := m.str(a)
		q, ok2 := m.str(b)
		if ok1 && ok2 && len(p.U) == len(q.U) && !p.Opaque && !q.Opaque {
			u := make([]*sym.Term, len(p.U))
			for i := range u {
				u[i] = m.P.Ite(c, p.U[i], q.U[i])
			}
			return m.mkStr(u), true
		}
	case *List:
		if y, ok := b.(*List); ok && x.Tuple && y.Tuple && len(x.E) == len(y.E) {
			r := &List{Tuple: true, E: make([]Value, len(x.E))}
			for i := range x.E {
				if r.E[i], ok = m.Ite(c, x.E[i], y.E[i]); !ok {
					return nil, false
				}
			}
			return r, true
		}
	case EnumVal:
		if y, ok := b.(EnumVal); ok && x.C == y.C {
			v, ok := m.Ite(c, x.V, y.V)
			return EnumVal{x.C, v}, ok
		}
	}
	if comparable(a) && comparable(b) && a == b {
		return a, true
	}
	return m.union(c, a, b)
}

func comparable(v Value) bool {
	switch v.(type) {
	case Native, *Union:
		return false
	}
	return true
}

// union joins values of different shapes that later operations lift over.
func (m *M) union(c *sym.Term, a, b Value) (Value, bool) {
	ok := func(v Value) bool {
		switch x := v.(type) {
		case nil, Undef, bool, int64, Int, string, *Str, float64, Flt, Big, *Union:
			return true
		case *sym.Term:
			return x.W == 0
		}
		return false
	}
	if !ok(a) || !ok(b) {
		return nil, false
	}
	u := &Union{}
	add := func(g *sym.Term, v Value) {
		if x, is := v.(*Union); is {
			for i := range x.V {
				u.C = append(u.C, m.P.And(g, x.C[i]))
				u.V = append(u.V, x.V[i])
			}
			return
		}
		u.C = append(u.C, g)
		u.V = append(u.V, v)
	}
	add(c, a)
	add(m.P.Not(c), b)
	if len(u.V) > 64 {
		return nil, false
	}
	return u, true
}

// Lift applies a pure function to each alternative of a union.
func (m *M) Lift(v Value, f func(v Value) Value) Value {
	u, ok := v.(*Union)
	if !ok {
		return f(v)
	}
	var res Value
	done := m.P.Speculate(func() bool {
		r := f(u.V[len(u.V)-1])
		for i := len(u.V) - 2; i >= 0; i-- {
			x, ok := m.Ite(u.C[i], f(u.V[i]), r)
			if !ok {
				return false
			}
			r = x
		}
		res = r
		return true
	})
	if done {
		return res
	}
	return f(m.Pick(v))
}

// Pick resolves a union by branching.
func (m *M) Pick(v Value) Value {
	u, ok := v.(*Union)
	if !ok {
		return v
	}
	for i := 0; i < len(u.V)-1; i++ {
		if m.P.Branch(u.C[i]) {
			return u.V[i]
		}
	}
	return u.V[len(u.V)-1]
}

func isBool(v Value) bool {
	switch v.(type) {
	case bool, *sym.Term:
		return true
	}
	return false
}

func isInt(v Value) bool {
	switch v.(type) {
	case int64, Int:
		return true
	}
	return false
}

func isFlt(v Value) bool {
	switch v.(type) {
	case float64, Flt:
		return true
	}
	return false
}

func isStr(v Value) bool {
	switch v.(type) {
	case string, *Str:
		return true
	}
	return false
}

func (m *M) boolT(v Value) *sym.Term {
	switch x := v.(type) {
	case bool:
		return m.P.Bool(x)
	case *sym.Term:
		return x
	}
	panic("boolT")
}

func (m *M) mkBool(t *sym.Term) Value {
	if t.W == 0 && t.IsConst() {
		return t.V == 1
	}
	return t
}

func (m *M) fltT(v Value) *sym.Term {
	switch x := v.(type) {
	case float64:
		return m.P.BV(64, f64bits(x))
	case Flt:
		return x.T
	}
	panic("fltT")
}

func (m *M) mkFlt(t *sym.Term) Value {
	if t.IsConst() {
		return f64from(t.V)
	}
	return Flt{t}
}

func (m *M) str(v Value) (*Str, bool) {
	switch x := v.(type) {
	case string:
		s := &Str{}
		for _, r := range utf16s(x) {
			s.U = append(s.U, m.P.BV(16, uint64(r)))
		}
		return s, true
	case *Str:
		return x, true
	}
	return nil, false
}

func (m *M) mkStr(u []*sym.Term) Value { return &Str{U: u} }

// term is the integer as a signed bit vector of minimal known width.
func (m *M) term(v Value) *sym.Term {
	switch x := v.(type) {
	case int64:
		return m.P.SBV(minW(x), x)
	case Int:
		return x.T
	case bool:
		if x {
			return m.P.BV(2, 1)
		}
		return m.P.BV(2, 0)
	case *sym.Term:
		if x.W == 0 {
			return m.P.Zext(m.P.BoolToBV(x, 1), 2)
		}
		return m.P.Zext(x, x.W+1)
	}
	panic("term of a non-integer")
}

// Wide is the integer at exactly w bits (must fit signed unless w truncates).
func (m *M) Wide(v Value, w int) *sym.Term {
	t := m.term(v)
	if t.W >= w {
		return m.P.Extract(t, w-1, 0)
	}
	return m.P.Sext(t, w)
}

// FromU is the integer value of an unsigned bit vector.
func (m *M) FromU(t *sym.Term) Value { return m.mk(m.P.Zext(t, t.W+1)) }

// FromS is the integer value of a signed bit vector.
func (m *M) FromS(t *sym.Term) Value { return m.mk(t) }

func minW(x int64) int {
	if x < 0 {
		x = ^x
	}
	return bits.Len64(uint64(x)) + 1
}

func (m *M) same(a, b Value) (x, y *sym.Term) {
	x, y = m.term(a), m.term(b)
	w := max(x.W, y.W)
	return m.P.Sext(x, w), m.P.Sext(y, w)
}

// mk normalises a signed bit vector into an integer value.
func (m *M) mk(t *sym.Term) Value {
	if t.IsConst() {
		b := t.SBig()
		if b.IsInt64() {
			return b.Int64()
		}
		return Int{m.P.BigBV(b.BitLen()+1, b)}
	}
	for {
		if t.Op == sym.OSext {
			t = t.A[0]
			continue
		}
		if z := lead(t, 0); z >= 2 {
			t = m.P.Extract(t, t.W-z, 0)
			if t.IsConst() {
				return m.mk(t)
			}
			continue
		}
		break
	}
	if t.W > 6000 {
		sym.Unsupported("integer of %d bits", t.W)
	}
	return Int{t}
}

// lead counts known leading zero bits.
func lead(t *sym.Term, d int) int {
	if d > 6 {
		return 0
	}
	switch t.Op {
	case sym.OConst:
		return t.W - t.UBig().BitLen()
	case sym.OZext:
		return t.W - t.A[0].W + lead(t.A[0], d+1)
	case sym.OConcat:
		z := lead(t.A[0], d+1)
		if z == t.A[0].W {
			z += lead(t.A[1], d+1)
		}
		return z
	case sym.OIte:
		return min(lead(t.A[1], d+1), lead(t.A[2], d+1))
	case sym.OOr, sym.OXor:
		return min(lead(t.A[0], d+1), lead(t.A[1], d+1))
	case sym.OAnd:
		return max(lead(t.A[0], d+1), lead(t.A[1], d+1))
	case sym.OAdd:
		return max(0, min(lead(t.A[0], d+1), lead(t.A[1], d+1))-1)
	case sym.OExtract:
		if int(t.V)+t.W == t.A[0].W {
			return min(t.W, lead(t.A[0], d+1))
		}
	case sym.OLshr, sym.OUDiv, sym.OURem:
		return lead(t.A[0], d+1)
	}
	return 0
}

// NonNeg tells whether the integer is known to be nonnegative.
func (m *M) NonNeg(v Value) bool {
	switch x := v.(type) {
	case int64:
		return x >= 0
	case Int:
		return lead(x.T, 0) >= 1
	}
	return false
}

func (m *M) Add(a, b Value) Value {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			if s := x + y; (s > x) == (y > 0) {
				return s
			}
		}
	}
	x, y := m.term(a), m.term(b)
	w := max(x.W, y.W) + 1
	return m.mk(m.P.Add(m.P.Sext(x, w), m.P.Sext(y, w)))
}

func (m *M) Neg(a Value) Value { return m.Sub(int64(0), a) }

func (m *M) Sub(a, b Value) Value {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			if s := x - y; (s < x) == (y > 0) {
				return s
			}
		}
	}
	x, y := m.term(a), m.term(b)
	w := max(x.W, y.W) + 1
	return m.mk(m.P.Sub(m.P.Sext(x, w), m.P.Sext(y, w)))
}

func (m *M) Mul(a, b Value) Value {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			if minW(x)+minW(y) <= 64 {
				return x * y
			}
		}
	}
	x, y := m.term(a), m.term(b)
	w := x.W + y.W
	return m.mk(m.P.Mul(m.P.Sext(x, w), m.P.Sext(y, w)))
}

func (m *M) And(a, b Value) Value {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			return x & y
		}
	}
	x, y := m.same(a, b)
	return m.mk(m.P.And(x, y))
}

func (m *M) Or(a, b Value) Value {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			return x | y
		}
	}
	x, y := m.same(a, b)
	return m.mk(m.P.Or(x, y))
}

func (m *M) Xor(a, b Value) Value {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			return x ^ y
		}
	}
	x, y := m.same(a, b)
	return m.mk(m.P.Xor(x, y))
}

func (m *M) Inv(a Value) Value {
	if x, ok := a.(int64); ok {
		return ^x
	}
	return m.mk(m.P.Not(m.term(a)))
}

// Conc forces a concrete integer.
func (m *M) Conc(v Value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case Int:
		t := m.P.Concretize(x.T)
		b := t.SBig()
		if !b.IsInt64() {
			sym.Unsupported("concrete integer out of range")
		}
		return b.Int64()
	case bool, *sym.Term:
		if m.Bool(v) {
			return 1
		}
		return 0
	}
	panic("Conc of a non-integer")
}

// Bool decides a boolean.
func (m *M) Bool(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *sym.Term:
		return m.P.Branch(x)
	}
	panic("Bool")
}

// Shl by a nonnegative concrete count.
func (m *M) Shl(a Value, k int) Value {
	if x, ok := a.(int64); ok {
		if minW(x)+k <= 63 {
			return x << uint(k)
		}
	}
	t := m.term(a)
	if k == 0 {
		return m.mk(t)
	}
	return m.mk(m.P.Concat(t, m.P.BV(k, 0)))
}

// Shr is the floor shift by a nonnegative concrete count.
func (m *M) Shr(a Value, k int) Value {
	if x, ok := a.(int64); ok {
		if k > 63 {
			k = 63
		}
		return x >> uint(k)
	}
	t := m.term(a)
	if k >= t.W {
		k = t.W - 1
	}
	return m.mk(m.P.Extract(t, t.W-1, k))
}

// ShrSym is the floor shift by a small symbolic count.
func (m *M) ShrSym(a, k Value) Value {
	t, s := m.term(a), m.term(k)
	w := max(t.W, s.W)
	return m.mk(m.P.Ashr(m.P.Sext(t, w), m.P.Sext(s, w)))
}

// Cmp compares integers: "<", "<=", "==".
func (m *M) Cmp(op string, a, b Value) Value {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			switch op {
			case "<":
				return x < y
			case "<=":
				return x <= y
			case "==":
				return x == y
			}
		}
	}
	x, y := m.same(a, b)
	switch op {
	case "<":
		return m.mkBool(m.P.Slt(x, y))
	case "<=":
		return m.mkBool(m.P.Sle(x, y))
	case "==":
		return m.mkBool(m.P.Eq(x, y))
	}
	panic("Cmp " + op)
}

func (m *M) Not(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return m.mkBool(m.P.Not(v.(*sym.Term)))
}

// QuoRem is division truncated towards zero; the divisor must not be zero.
func (m *M) QuoRem(a, b Value) (q, r Value) {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok && !(y == -1) {
			return x / y, x % y
		}
	}
	if y, ok := b.(int64); ok && y > 0 && y&(y-1) == 0 && m.NonNeg(a) {
		k := bits.TrailingZeros64(uint64(y))
		return m.Shr(a, k), m.And(a, y-1)
	}
	x, y := m.term(a), m.term(b)
	w := max(x.W, y.W) + 1
	x, y = m.P.Sext(x, w), m.P.Sext(y, w)
	if m.NonNeg(a) && m.NonNeg(b) {
		return m.mk(m.P.UDiv(x, y)), m.mk(m.P.URem(x, y))
	}
	return m.mk(m.P.SDiv(x, y)), m.mk(m.P.SRem(x, y))
}

// FloorDivMod is division rounded down.
func (m *M) FloorDivMod(a, b Value) (q, r Value) {
	if y, ok := b.(int64); ok && y > 0 && y&(y-1) == 0 {
		k := bits.TrailingZeros64(uint64(y))
		return m.Shr(a, k), m.And(a, y-1)
	}
	q, r = m.QuoRem(a, b)
	if m.NonNeg(a) && m.NonNeg(b) {
		return q, r
	}
	neg := m.P.And(m.boolT(m.Not(m.Cmp("==", r, int64(0)))), m.P.Xor(m.boolT(m.Cmp("<", r, int64(0))), m.boolT(m.Cmp("<", b, int64(0)))))
	q1, _ := m.Ite(neg, m.Sub(q, int64(1)), q)
	r1, _ := m.Ite(neg, m.Add(r, b), r)
	return q1, r1
}

// IntLit parses an integer literal of any size.
func (m *M) bigLit(b *big.Int) Value {
	if b.IsInt64() {
		return b.Int64()
	}
	return Int{m.P.BigBV(b.BitLen()+1, b)}
}

// IntToFlt converts an integer to a double (values that need more than 64 bits
// are out of reach).
func (m *M) IntToFlt(v Value) Value {
	if x, ok := v.(int64); ok {
		return float64(x)
	}
	t := m.term(v)
	if t.W <= 64 {
		return m.mkFlt(m.P.UF("f64.from.s64", 64, m.P.Sext(t, 64)))
	}
	if t.W == 65 && m.NonNeg(v) {
		return m.mkFlt(m.P.UF("f64.from.u64", 64, m.P.Extract(t, 63, 0)))
	}
	sym.Unsupported("conversion of a %d-bit integer to float", t.W)
	return nil
}
