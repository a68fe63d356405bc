package checks

import (
	"fmt"
	"slices"

	"vsym/codec"
	"vsym/sym"
	"vsym/wire"
)

// intExprs lists integer expressions over a field of kind k: every ordered pair
// of operators in both nestings, and the unary operators between them.
func intExprs(k wire.Kind, all bool) []*wire.Expr {
	I, B, U, C, V := wire.I, wire.B, wire.U, wire.C, wire.V
	var out []*wire.Expr
	c1 := map[string]int64{"+": 7, "-": 2, "*": 3, "/": 4, "%": 5, "<<": 1, ">>": 2, "&": 13, "|": 9, "^": 6}
	c2 := map[string]int64{"+": 3, "-": 1, "*": 2, "/": 3, "%": 7, "<<": 2, ">>": 1, "&": 27, "|": 18, "^": 5}
	ops := []string{"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"}
	bin := func(op string, a, b *wire.Expr) *wire.Expr {
		e := B(op, a, b)
		if op == "/" { // the quotient of integers is made an integer explicitly
			return C(k, e)
		}
		return e
	}
	for i, o1 := range ops {
		for j, o2 := range ops {
			if !all && (i+j)%3 != 0 {
				continue
			}
			out = append(out, bin(o2, bin(o1, V(), I(c1[o1])), I(c2[o2])))
			switch o1 {
			case "<<", ">>", "/", "%":
				if slices.Contains([]string{"/", "%", "&", ">>"}, o2) {
					continue
				}
				n := int64(1)
				if o1 == "/" || o1 == "%" {
					n = 6
				}
				out = append(out, bin(o1, V(), B(o2, I(n+1), I(1))))
			default:
				out = append(out, bin(o1, I(c1[o1]+20), bin(o2, V(), I(c2[o2]))))
				out = append(out, bin(o1, V(), bin(o2, V(), I(c2[o2]))))
			}
		}
	}
	if k.Signed() {
		out = append(out, U("neg", V()), U("~", V()), U("neg", U("neg", V())), U("~", U("neg", V())), U("neg", U("~", V())), U("neg", B("+", V(), I(3))),
			B("*", U("neg", V()), I(2)), B("-", U("neg", V()), I(2)), B("&", U("~", V()), I(12)), U("~", B("&", V(), I(12))), U("neg", I(-3)), B("-", V(), I(-3)), B("-", V(), U("neg", I(-3))),
			B("+", V(), U("neg", V())), B("*", V(), I(-2)), B("-", V(), U("neg", V())), C(k, U("neg", V())), U("neg", C(k, B("+", V(), I(1)))))
	}
	out = append(out, C(k, B("/", V(), I(3))))
	cmp := func(op string, n int64) *wire.Expr { return B(op, V(), I(n)) }
	out = append(out, wire.T(cmp(">", 9), C(k, B("+", V(), I(1))), C(k, I(3))),
		wire.T(B("&&", cmp(">", 9), cmp("!=", 20)), C(k, I(1)), C(k, wire.T(cmp("<", 5), C(k, I(4)), C(k, V())))),
		wire.T(U("!", cmp(">=", 9)), C(k, V()), C(k, I(100))),
		B("+", C(k, wire.T(cmp("<=", 9), C(k, V()), C(k, I(7)))), I(1)),
		B("-", C(k, V()), C(k, B("-", V(), I(1)))))
	return out
}

// boolExprs lists conditions over an integer field.
func boolExprs() []*wire.Expr {
	I, B, U, V := wire.I, wire.B, wire.U, wire.V
	cmp := func(op string, n int64) *wire.Expr { return B(op, V(), I(n)) }
	var out []*wire.Expr
	for _, o := range []string{"<", "<=", ">", ">=", "==", "!="} {
		out = append(out, cmp(o, 5), U("!", cmp(o, 7)), B(o, B("+", V(), I(3)), B("*", V(), I(2))), B(o, B("<<", V(), I(1)), B("|", V(), I(6))),
			B(o, B("&", V(), I(3)), I(2)), B("==", cmp(o, 5), cmp(">", 2)), B("!=", cmp("<", 9), cmp(o, 3)))
		for _, p := range []string{"&&", "||"} {
			out = append(out, B(p, cmp(o, 5), cmp("!=", 2)))
		}
	}
	a, b, c := cmp("<", 9), cmp(">", 3), B("==", B("%", V(), I(2)), I(0))
	out = append(out, B("||", B("&&", a, b), c), B("&&", a, B("||", b, c)), B("&&", B("||", a, b), c), B("||", a, B("&&", b, c)), B("&&", a, B("&&", b, c)), B("||", a, B("||", b, c)),
		U("!", B("&&", a, b)), B("&&", U("!", a), b), B("||", U("!", B("||", a, c)), b), U("!", U("!", a)), B("==", U("!", a), b))
	return out
}

func fltExprs() []*wire.Expr {
	F, B, V := wire.Fl, wire.B, wire.V
	f := func(e *wire.Expr) *wire.Expr { return wire.C(wire.KF64, e) }
	return []*wire.Expr{
		f(V()), B("/", f(V()), F("100.0")), B("*", F("2.5"), f(V())), B("+", B("*", f(V()), F("2.5")), F("1.25")), B("*", B("+", f(V()), F("1.5")), F("0.5")),
		B("-", B("-", f(V()), F("0.5")), F("0.25")), B("-", f(V()), B("-", F("8.5"), f(V()))), B("/", B("*", f(V()), F("3.3")), F("4096.0")), B("*", f(V()), B("/", f(V()), F("3.5"))),
		B("/", f(V()), B("/", f(V()), F("3.5"))), B("-", F("40.5"), B("/", f(V()), F("10.0"))), B("+", wire.U("neg", f(V())), F("0.5")), f(B("+", V(), wire.I(1))),
	}
}

var methKinds = map[wire.Kind]string{wire.KU8: "A", wire.KI8: "B", wire.KU16: "D", wire.KI16: "E", wire.KU32: "F", wire.KI32: "H", wire.KU64: "J", wire.KI64: "K"}

// methodUnits declares the expressions as getters and setters.
func (r *Run) methodUnits() []*wire.Unit {
	var out []*wire.Unit
	for _, k := range []wire.Kind{wire.KI16, wire.KU8, wire.KU16, wire.KI32, wire.KI8, wire.KU32, wire.KI64, wire.KU64} {
		f := &wire.Field{Name: "v", Kind: k, Bits: k.Width()}
		n := 0
		add := func(e *wire.Expr, ret wire.Kind, set bool) {
			src := e.Source(n%4 == 3)
			f.Meth = append(f.Meth, wire.Method{Set: set, Name: fmt.Sprintf("m%d", n), Kind: ret, Expr: src, E: e})
			n++
		}
		for i, e := range intExprs(k, !r.Quick() || k == wire.KI16) {
			add(e, k, i%5 == 4)
		}
		if k == wire.KI16 || k == wire.KU8 || !r.Quick() {
			for _, e := range boolExprs() {
				add(e, wire.KBool, false)
			}
			for _, e := range fltExprs() {
				add(e, wire.KF64, false)
			}
		}
		// between widths
		for _, e := range []*wire.Expr{wire.C(wire.KI32, wire.V()), wire.B("*", wire.C(wire.KI32, wire.V()), wire.I(100)), wire.B("-", wire.I(50), wire.C(wire.KI32, wire.V()))} {
			add(e, wire.KI32, false)
		}
		add(wire.B("+", wire.C(k, wire.V()), wire.I(1)), wire.KI32, true)
		st := &wire.Struct{Name: "M" + methKinds[k], Fields: []*wire.Field{f}}
		if w := k.Width(); w < 64 { // neighbours, and a field that does not start at a byte
			st.Fields = []*wire.Field{fld("pre", wire.KU8, 3), f, fld("post", wire.KU8, 5)}
		}
		out = append(out, &wire.Unit{Pkg: "me" + string(methKinds[k][0]+32), Structs: []*wire.Struct{st}})
	}
	b := &wire.Field{Name: "on", Kind: wire.KBool, Bits: 1}
	for i, e := range []*wire.Expr{wire.V(), wire.U("!", wire.V()), wire.U("!", wire.U("!", wire.V())), wire.B("==", wire.V(), wire.U("!", wire.V())), wire.B("||", wire.V(), wire.U("!", wire.V()))} {
		b.Meth = append(b.Meth, wire.Method{Name: fmt.Sprintf("g%d", i), Kind: wire.KBool, Expr: e.Source(false), E: e},
			wire.Method{Name: fmt.Sprintf("s%d", i), Kind: wire.KBool, Expr: e.Source(false), E: e, Set: true})
	}
	out = append(out, &wire.Unit{Pkg: "meb2", Structs: []*wire.Struct{{Name: "MO", Fields: []*wire.Field{b, fld("rest", wire.KU8, 7)}}}})
	return out
}

// evalMethod is the value a method's expression has for val, and the condition
// under which the schema language fixes it.
func evalMethod(x *X, j *codec.Job, k, from wire.Kind, m *wire.Method, val *sym.Term) (wire.EVal, *sym.Term) {
	v := &wire.EvalEnv{P: x.Path, W: 2*max(k.Width(), from.Width(), 32) + 2, K: k, Ok: x.True()}
	if m.Kind == wire.KBool || m.Kind.Float() {
		v.K = from
	}
	var in wire.EVal
	switch {
	case from == wire.KBool:
		in.Bool = val
		if val.W > 0 {
			in.Bool = x.Ne(val, x.BV(val.W, 0))
		}
	default:
		in.Int = x.Resize(val, v.W, from.Signed())
	}
	if j.Target == "commonjs" || j.Target == "esmodule" {
		v.Js = true
	}
	if v.Js && from == wire.KU32 && in.Int != nil && (m.E.Uses("&") || m.E.Uses("|") || m.E.Uses("^") || m.E.Uses(">>") || m.E.Uses("<<")) {
		// 32-bit operators take the operand as signed (a known finding)
		v.Ok = x.Eq(x.Extract(val, 31, 31), x.BV(1, 0))
	}
	v.Max53 = j.Target == "python" && from.Width() == 64
	return v.Eval(m.E, in), v.Ok
}

// toField converts an expression's value to a value of kind k.
func toField(x *X, k wire.Kind, e wire.EVal) *sym.Term {
	switch {
	case k == wire.KBool:
		return e.Bool
	case k.Float():
		return e.Flt
	}
	return x.Extract(e.Int, k.Width()-1, 0)
}

// concGet is a getter at one value, which the other items leave out because
// it is a known finding.
func concGet(j *codec.Job, st *wire.Struct, f *wire.Field, m *wire.Method, in, want uint64) *Item {
	return &Item{Name: fmt.Sprintf("%s: %s %s of 0x%x", j.Target, f.Kind, m.Expr, in), Target: j.Target, Traces: 1, Run: func(x *X) {
		v := wire.SymVal(x.Path, st, "v", fixedShape(0), false)
		plain(x, j, st, v)
		v.F[f.Name] = &wire.Val{T: x.BV(f.Bits, in)}
		rec := x.Rec(j)
		res := rec.Get(st, v, m)
		x.Check("the getter completes", x.Bool(res.Exc == ""))
		if res.Exc == "" {
			w := m.Kind.Width()
			x.Check("the getter returns the expression's value", codec.EqVal(x.Ctx, &wire.Field{Kind: m.Kind, Bits: w}, &wire.Val{T: res.Ret}, &wire.Val{T: x.BV(w, want)}))
		}
	}}
}

func methItem(j *codec.Job, st *wire.Struct, f *wire.Field, m *wire.Method) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s#%s(%s)%v=%s", j.Target, j.Unit.Pkg, st.Name, map[bool]string{false: "get", true: "set"}[m.Set], m.Kind, j.Opts, m.Expr), Target: j.Target, Traces: 1, Run: func(x *X) {
		v := wire.SymVal(x.Path, st, "v", fixedShape(0), false)
		plain(x, j, st, v)
		rec := x.Rec(j)
		if !m.Set {
			k := m.Kind
			e, ok := evalMethod(x, j, k, f.Kind, m, v.F[f.Name].T)
			x.AssumeQuiet(ok)
			res := rec.Get(st, v, m)
			x.Check("the getter completes", x.Bool(res.Exc == ""))
			if res.Exc != "" {
				return
			}
			got := res.Ret
			if k == wire.KBool && got.W > 0 {
				got = x.Ne(x.Resize(got, 8, false), x.BV(8, 0))
			}
			x.Check("the getter returns the expression's value", codec.EqVal(x.Ctx, &wire.Field{Kind: k, Bits: k.Width()}, &wire.Val{T: got}, &wire.Val{T: toField(x, k, e)}))
			return
		}
		w := m.Kind.Width()
		if m.Kind == wire.KBool {
			w = 0
		}
		arg := x.Var("arg", w)
		e, ok := evalMethod(x, j, f.Kind, m.Kind, m, arg)
		x.AssumeQuiet(ok)
		res, after := rec.SetM(st, v, m, arg)
		x.Check("the setter completes", x.Bool(res.Exc == ""))
		if res.Exc != "" {
			return
		}
		want := &wire.Val{F: map[string]*wire.Val{}}
		for n, y := range v.F {
			want.F[n] = y
		}
		want.F[f.Name] = &wire.Val{T: toField(x, f.Kind, e)}
		x.Check("the setter stores the expression's value and nothing else", codec.EqStruct(x.Ctx, st, want, after))
	}}
}

// hard reports whether deciding e at k's width is beyond the solver: products
// of two variables and quotients inside products at 32 and 64 bits.
func hard(e *wire.Expr, k wire.Kind) bool {
	if k.Width() < 32 {
		return false
	}
	variable := func(e *wire.Expr) bool { return e.Uses("value") }
	switch {
	case e.Op == "*" && variable(e.A[0]) && variable(e.A[1]),
		e.Op == "*" && k.Width() == 64 && (e.Uses("/") || e.Uses("%")),
		(e.Op == "/" || e.Op == "%") && k.Width() == 64 && e.Uses("*"):
		return true
	}
	for _, a := range e.A {
		if hard(a, k) {
			return true
		}
	}
	return false
}

func runC11(r *Run) {
	jobs := r.Prepare(r.jobsFor(r.methodUnits(), r.Targets, nil))
	for _, j := range jobs {
		js := j.Target == "commonjs" || j.Target == "esmodule"
		for _, st := range j.Unit.Structs {
			for _, f := range st.Flat() {
				for i := range f.Meth {
					m := &f.Meth[i]
					k, from, to := f.Kind, f.Kind, m.Kind
					if m.Set {
						from, to = m.Kind, f.Kind
					}
					if hard(m.E, k) {
						continue
					}
					it := methItem(j, st, f, m)
					if r.Quick() {
						it.TimeMS = 6000
					}
					if js {
						// one item stands for arithmetic of BigInt with Number, which
						// throws whatever the operator (a known finding)
						b, mx := m.E.Mixed(from.Width() == 64)
						if mx || to != wire.KBool && !to.Float() && b != (to.Width() == 64) {
							if k != wire.KI64 || m.Set || m.Expr != "value + 7 + 3" {
								continue
							}
							it.Name = fmt.Sprintf("%s: %s on a 64-bit field", j.Target, m.Expr)
						}
						// an integer zero that is negated becomes a negative zero
						if m.Kind.Float() && m.E.Uses("neg") {
							continue
						}
					}
					r.Add(it)
					if js && k == wire.KU32 && !m.Set && m.Expr == "value >> (2 + 1)" {
						r.Add(concGet(j, st, f, m, 0x80000000, 0x10000000))
					}
					if j.Target == "python" && k == wire.KI64 && m.Expr == "(int64)(value / 3)" {
						r.Add(concGet(j, st, f, m, 0x5ffffffffe7f9ff6, 0x5ffffffffe7f9ff6/3))
					}
				}
			}
		}
	}
	r.Bounds = append(r.Bounds, "about 500 expressions over fields of every integer kind and bool: every ordered pair of + - * / % << >> & | ^ in both nestings with the fewest and with all parentheses, unary - ~ ! around and inside them, comparisons, && and || in every nesting of three, ?:, casts between integer widths and to float64; every field value and argument symbolic, restricted to those for which each intermediate result fits the declared type, divisions are of non-negative numbers by positive ones, and shift counts are constant; float64 operations uninterpreted (the expression's structure and constants are compared)")
	r.Execute()
}
