package wire

import (
	"fmt"
	"math"

	"vsym/sym"
)

// Expr is a getter/setter expression tree.
type Expr struct {
	Op   string // "value", "int", "float", "cast", unary "neg" "~" "!", binary operators, "?:"
	A    []*Expr
	I    int64
	F    float64
	Text string // float literal
	Cast Kind
}

func V() *Expr                      { return &Expr{Op: "value"} }
func I(i int64) *Expr               { return &Expr{Op: "int", I: i} }
func Fl(s string) *Expr             { e := &Expr{Op: "float", Text: s}; fmt.Sscan(s, &e.F); return e }
func C(k Kind, e *Expr) *Expr       { return &Expr{Op: "cast", Cast: k, A: []*Expr{e}} }
func U(op string, e *Expr) *Expr    { return &Expr{Op: op, A: []*Expr{e}} }
func B(op string, a, b *Expr) *Expr { return &Expr{Op: op, A: []*Expr{a, b}} }
func T(c, a, b *Expr) *Expr         { return &Expr{Op: "?:", A: []*Expr{c, a, b}} }

// prec is the binding strength of the grammar's alternatives.
func (e *Expr) prec() int {
	switch e.Op {
	case "value", "int", "float":
		return 20
	case "neg", "~", "!":
		return 14
	case "cast":
		return 13
	case "*", "/", "%":
		return 12
	case "+", "-":
		return 11
	case "<<", ">>":
		return 10
	case "<", "<=", ">", ">=":
		return 9
	case "==", "!=":
		return 8
	case "&":
		return 7
	case "^":
		return 6
	case "|":
		return 5
	case "&&":
		return 4
	case "||":
		return 3
	case "?:":
		return 2
	}
	panic(e.Op)
}

// Source is the expression in the schema language with no more parentheses
// than its structure needs, or (full) all of them.
func (e *Expr) Source(full bool) string {
	in := func(x *Expr, min int) string {
		s := x.Source(full)
		if x.prec() < min || full && x.prec() < 20 {
			return "(" + s + ")"
		}
		return s
	}
	p := e.prec()
	switch e.Op {
	case "value":
		return "value"
	case "int":
		return fmt.Sprint(e.I)
	case "float":
		return e.Text
	case "neg":
		return "-" + in(e.A[0], p)
	case "~", "!":
		return e.Op + in(e.A[0], p)
	case "cast":
		return "(" + e.Cast.String() + ")" + in(e.A[0], p)
	case "?:":
		return in(e.A[0], p+1) + " ? " + in(e.A[1], p+1) + " : " + in(e.A[2], p+1)
	}
	return in(e.A[0], p) + " " + e.Op + " " + in(e.A[1], p+1)
}

// Mixed reports whether, with 64-bit numbers of a type of their own (big: the
// value is one), e is such a number, and whether arithmetic combines one with
// a number of another type.
func (e *Expr) Mixed(big bool) (isBig, mixed bool) {
	var bs []bool
	for _, a := range e.A {
		b, m := a.Mixed(big)
		bs = append(bs, b)
		mixed = mixed || m
	}
	switch e.Op {
	case "value":
		return big, false
	case "int", "float", "!", "&&", "||", "<", "<=", ">", ">=", "==", "!=":
		return false, mixed
	case "cast":
		return e.Cast == KI64 || e.Cast == KU64, mixed
	case "neg", "~":
		return bs[0], mixed
	case "?:":
		return bs[1], mixed || bs[1] != bs[2]
	}
	return bs[0], mixed || bs[0] != bs[1]
}

// Uses reports whether op occurs in e.
func (e *Expr) Uses(op string) bool {
	if e.Op == op {
		return true
	}
	for _, a := range e.A {
		if a.Uses(op) {
			return true
		}
	}
	return false
}

// EVal is the value of an expression: a truth value, a float64 or an integer
// of mathematical meaning in a wide bit vector.
type EVal struct {
	Bool, Int, Flt *sym.Term
}

// EvalEnv evaluates expressions. Ok collects the conditions under which every
// integer on the way fits the type it is computed in.
type EvalEnv struct {
	P  *sym.Path
	W  int // width of the integers
	K  Kind
	Ok *sym.Term
	Js bool // 32-bit operators must not leave the signed range
	// Max53 restricts dividends to integers that doubles hold exactly.
	Max53 bool
}

func (v *EvalEnv) fit(t *sym.Term, k Kind) {
	p := v.P
	if v.Js && k.Width() == 32 {
		v.Ok = p.And(v.Ok, p.Eq(p.Sext(p.Extract(t, 31, 0), v.W), t))
	}
	w := k.Width()
	if k.Signed() {
		v.Ok = p.And(v.Ok, p.Eq(p.Sext(p.Extract(t, w-1, 0), v.W), t))
	} else {
		v.Ok = p.And(v.Ok, p.Eq(p.Zext(p.Extract(t, w-1, 0), v.W), t))
	}
}

func (v *EvalEnv) Eval(e *Expr, val EVal) EVal {
	p := v.P
	num := func(t *sym.Term) EVal {
		v.fit(t, v.K)
		return EVal{Int: t}
	}
	flt := func(x EVal) *sym.Term {
		if x.Flt != nil {
			return x.Flt
		}
		return p.UF("f64.from.s64", 64, p.Resize(x.Int, 64, true))
	}
	switch e.Op {
	case "value":
		return val
	case "int":
		return EVal{Int: p.Resize(p.BV(64, uint64(e.I)), v.W, true)}
	case "float":
		return EVal{Flt: p.BV(64, math.Float64bits(e.F))}
	case "neg":
		a := v.Eval(e.A[0], val)
		if a.Flt != nil {
			return EVal{Flt: p.UF("f64.neg", 64, a.Flt)}
		}
		return num(p.Sub(p.BV(v.W, 0), a.Int))
	case "~":
		return num(p.Not(v.Eval(e.A[0], val).Int))
	case "!":
		return EVal{Bool: p.Not(v.Eval(e.A[0], val).Bool)}
	case "cast":
		a := v.Eval(e.A[0], val)
		if e.Cast.Float() {
			return EVal{Flt: flt(a)}
		}
		old := v.K
		v.K = e.Cast
		defer func() { v.K = old }()
		return num(a.Int)
	case "?:":
		c := v.Eval(e.A[0], val)
		a, b := v.Eval(e.A[1], val), v.Eval(e.A[2], val)
		if a.Flt != nil || b.Flt != nil {
			return EVal{Flt: p.Ite(c.Bool, flt(a), flt(b))}
		}
		return EVal{Int: p.Ite(c.Bool, a.Int, b.Int)}
	case "&&":
		return EVal{Bool: p.And(v.Eval(e.A[0], val).Bool, v.Eval(e.A[1], val).Bool)}
	case "||":
		return EVal{Bool: p.Or(v.Eval(e.A[0], val).Bool, v.Eval(e.A[1], val).Bool)}
	}
	a, b := v.Eval(e.A[0], val), v.Eval(e.A[1], val)
	if a.Bool != nil { // == and !=
		q := p.Eq(a.Bool, b.Bool)
		if e.Op == "!=" {
			q = p.Not(q)
		}
		return EVal{Bool: q}
	}
	if a.Flt != nil || b.Flt != nil {
		x, y := flt(a), flt(b)
		switch e.Op {
		case "+":
			return EVal{Flt: p.UF("f64.add", 64, x, y)}
		case "-":
			return EVal{Flt: p.UF("f64.sub", 64, x, y)}
		case "*":
			return EVal{Flt: p.UF("f64.mul", 64, x, y)}
		case "/":
			v.Ok = p.And(v.Ok, p.Not(p.UF("f64.eq", 0, y, p.BV(64, 0)))) // infinities and NaN are outside
			return EVal{Flt: p.UF("f64.div", 64, x, y)}
		case "<":
			return EVal{Bool: p.UF("f64.lt", 0, x, y)}
		case ">":
			return EVal{Bool: p.UF("f64.lt", 0, y, x)}
		}
		panic("float " + e.Op)
	}
	x, y := a.Int, b.Int
	switch e.Op {
	case "+":
		return num(p.Add(x, y))
	case "-":
		return num(p.Sub(x, y))
	case "*":
		return num(p.Mul(x, y))
	case "/", "%":
		// of a number that is not negative by a positive one; the quotients of
		// negative numbers differ between languages
		z := p.BV(v.W, 0)
		v.Ok = p.And(v.Ok, p.And(p.Sle(z, x), p.Slt(z, y)))
		if v.Max53 && e.Op == "/" {
			v.Ok = p.And(v.Ok, p.Sle(x, p.Resize(p.BV(64, 1<<53), v.W, false)))
		}
		if e.Op == "%" {
			return num(p.URem(x, y))
		}
		return num(p.UDiv(x, y))
	case "<<", ">>":
		if !y.IsConst() {
			panic("shift by a variable")
		}
		if e.Op == "<<" {
			v.Ok = p.And(v.Ok, p.Sle(p.BV(v.W, 0), x))
			return num(p.Shl(x, y))
		}
		return num(p.Ashr(x, y))
	case "<":
		return EVal{Bool: p.Slt(x, y)}
	case "<=":
		return EVal{Bool: p.Sle(x, y)}
	case ">":
		return EVal{Bool: p.Slt(y, x)}
	case ">=":
		return EVal{Bool: p.Sle(y, x)}
	case "==":
		return EVal{Bool: p.Eq(x, y)}
	case "!=":
		return EVal{Bool: p.Not(p.Eq(x, y))}
	case "&":
		return num(p.And(x, y))
	case "|":
		return num(p.Or(x, y))
	case "^":
		return num(p.Xor(x, y))
	}
	panic(e.Op)
}
