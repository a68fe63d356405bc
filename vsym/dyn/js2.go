package dyn

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"vsym/sym"
)

// quot is an integer divided by a positive integer that is not yet rounded.
type quot struct {
	A Value
	K int64
}

func (m *M) quotFlt(q quot) Value {
	return m.mkFlt(m.P.UF("f64.div", 64, m.fltT(m.IntToFlt(q.A)), m.fltT(float64(q.K))))
}

// ---- conversions

func (f *jsFrame) truth(v Value) Value {
	m := f.m
	switch x := v.(type) {
	case *Union:
		r := m.boolT(f.truth(x.V[len(x.V)-1]))
		for i := len(x.V) - 2; i >= 0; i-- {
			r = m.P.Ite(x.C[i], m.boolT(f.truth(x.V[i])), r)
		}
		return m.mkBool(r)
	case nil, Undef:
		return false
	case bool:
		return x
	case *sym.Term:
		return m.mkBool(x)
	case int64:
		return x != 0
	case Int:
		return m.mkBool(m.P.NonZero(x.T))
	case float64:
		return x != 0 && x == x
	case Flt:
		return m.Not(m.mkBool(m.P.UF("f64.eq", 0, x.T, m.P.BV(64, 0))))
	case Big:
		return f.truth(x.V)
	case quot:
		return f.truth(x.A)
	case string:
		return x != ""
	case *Str:
		return len(x.U) > 0
	}
	return true
}

// toNumeric is a Number (int64, Int, float64, Flt, quot) or a BigInt.
func (f *jsFrame) toNumeric(n *Node, v Value) Value {
	m := f.m
	switch x := v.(type) {
	case *Union:
		return m.Lift(x, func(v Value) Value { return f.toNumeric(n, v) })
	case int64, Int, float64, Flt, Big, quot:
		return v
	case Undef:
		return math.NaN()
	case nil:
		return int64(0)
	case bool:
		if x {
			return int64(1)
		}
		return int64(0)
	case *sym.Term:
		if x.W == 0 {
			return m.FromU(m.P.BoolToBV(x, 1))
		}
	case string:
		if x == "" {
			return int64(0)
		}
		if g, err := strconv.ParseFloat(x, 64); err == nil {
			return jsNum(g)
		}
		return math.NaN()
	case *List, *View:
		f.unsup(n, "number of an array")
	}
	f.unsup(n, fmt.Sprintf("number of %T", v))
	return nil
}

func (f *jsFrame) toNumber(n *Node, v Value) Value {
	x := f.toNumeric(n, v)
	if u, ok := x.(*Union); ok {
		x = f.m.Pick(u)
	}
	switch y := x.(type) {
	case Big:
		f.m.raise("TypeError", "Cannot convert a BigInt value to a number (line %d)", n.Line)
	case quot:
		return f.m.quotFlt(y)
	}
	return x
}

// toInt32 is the value modulo 2^32.
func (f *jsFrame) toInt32(n *Node, v Value) *sym.Term {
	m := f.m
	x := f.toNumeric(n, v)
	if u, ok := x.(*Union); ok {
		r := f.toInt32(n, u.V[len(u.V)-1])
		for i := len(u.V) - 2; i >= 0; i-- {
			r = m.P.Ite(u.C[i], f.toInt32(n, u.V[i]), r)
		}
		return r
	}
	switch y := x.(type) {
	case int64, Int:
		return m.Wide(y, 32)
	case float64:
		if y != y || math.IsInf(y, 0) {
			return m.P.BV(32, 0)
		}
		b, _ := new(big.Float).SetFloat64(y).Int(nil)
		return m.P.BV(32, new(big.Int).Mod(b, big.NewInt(1<<32)).Uint64())
	case Flt:
		return m.P.Extract(m.P.UF("js.toint", 64, y.T), 31, 0)
	case quot:
		q, _ := m.QuoRem(y.A, y.K)
		return m.Wide(q, 32)
	case Big:
		m.raise("TypeError", "Cannot mix BigInt and other types (line %d)", n.Line)
	}
	f.unsup(n, fmt.Sprintf("integer of %T", x))
	return nil
}

func (f *jsFrame) toUint8(n *Node, v Value) *sym.Term {
	return f.m.P.Extract(f.toInt32(n, v), 7, 0)
}

// num53 is an integer result as a Number: exact up to 2^53, else rounded.
func (m *M) num53(v Value) Value {
	switch x := v.(type) {
	case int64:
		if x >= -1<<53 && x <= 1<<53 {
			return v
		}
		return float64(x)
	case Int:
		if x.T.W <= 54 {
			return v
		}
		lim := Value(int64(1) << 53)
		in := m.P.And(m.boolT(m.Cmp("<=", v, lim)), m.boolT(m.Cmp("<=", m.Neg(lim), v)))
		if m.P.Branch(in) {
			return m.mk(m.P.Extract(x.T, 54, 0))
		}
		return m.IntToFlt(v)
	}
	return v
}

// ---- operators

func (f *jsFrame) arith(n *Node, op string, a, b Value) Value {
	m := f.m
	if x, ok := a.(Big); ok {
		y, ok := b.(Big)
		if !ok {
			m.raise("TypeError", "Cannot mix BigInt and other types (line %d)", n.Line)
		}
		return f.bigOp(n, op, x.V, y.V)
	}
	if _, ok := b.(Big); ok {
		m.raise("TypeError", "Cannot mix BigInt and other types (line %d)", n.Line)
	}
	switch op {
	case "&", "|", "^":
		x, y := f.toInt32(n, a), f.toInt32(n, b)
		switch op {
		case "&":
			return m.FromS(m.P.And(x, y))
		case "|":
			return m.FromS(m.P.Or(x, y))
		}
		return m.FromS(m.P.Xor(x, y))
	case "<<", ">>", ">>>":
		x, y := f.toInt32(n, a), m.P.And(f.toInt32(n, b), m.P.BV(32, 31))
		if y.IsConst() {
			k := int(y.V)
			switch {
			case op == "<<" && k == 0, op == ">>" && k == 0:
				return m.FromS(x)
			case op == "<<":
				return m.FromS(m.P.Concat(m.P.Extract(x, 31-k, 0), m.P.BV(k, 0)))
			case op == ">>":
				return m.FromS(m.P.Extract(x, 31, k))
			}
			return m.FromU(m.P.Extract(x, 31, k))
		}
		switch op {
		case "<<":
			return m.FromS(m.P.Shl(x, y))
		case ">>":
			return m.FromS(m.P.Ashr(x, y))
		}
		return m.FromU(m.P.Lshr(x, y))
	}
	if q, ok := a.(quot); ok {
		a = m.quotFlt(q)
	}
	if q, ok := b.(quot); ok {
		b = m.quotFlt(q)
	}
	if isInt(a) && isInt(b) {
		switch op {
		case "+":
			return m.num53(m.Add(a, b))
		case "-":
			return m.num53(m.Sub(a, b))
		case "*":
			return m.num53(m.Mul(a, b))
		case "/":
			x, xc := a.(int64)
			y, yc := b.(int64)
			switch {
			case xc && yc:
				return jsNum(float64(x) / float64(y))
			case yc && y > 0:
				return quot{a, y}
			}
		case "%":
			if m.Bool(m.Cmp("==", b, int64(0))) {
				return math.NaN()
			}
			_, r := m.QuoRem(a, b)
			return r
		case "**":
			x, xc := a.(int64)
			y, yc := b.(int64)
			if xc && yc {
				return jsNum(math.Pow(float64(x), float64(y)))
			}
		}
	}
	if x, ok := a.(float64); ok && x != x {
		return x
	}
	if x, ok := b.(float64); ok && x != x {
		return x
	}
	x, ok1 := m.FltTerm(a)
	y, ok2 := m.FltTerm(b)
	name := map[string]string{"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "**": "pow"}[op]
	if !ok1 || !ok2 || name == "" {
		f.unsup(n, fmt.Sprintf("%T %s %T", a, op, b))
	}
	return m.mkNum(m.P.UF("f64."+name, 64, x, y))
}

func (f *jsFrame) bigOp(n *Node, op string, a, b Value) Value {
	m := f.m
	switch op {
	case "+":
		return Big{m.Add(a, b)}
	case "-":
		return Big{m.Sub(a, b)}
	case "*":
		return Big{m.Mul(a, b)}
	case "&":
		return Big{m.And(a, b)}
	case "|":
		return Big{m.Or(a, b)}
	case "^":
		return Big{m.Xor(a, b)}
	case "/", "%":
		if m.Bool(m.Cmp("==", b, int64(0))) {
			m.raise("RangeError", "Division by zero (line %d)", n.Line)
		}
		q, r := m.QuoRem(a, b)
		if op == "/" {
			return Big{q}
		}
		return Big{r}
	case "<<", ">>":
		k := m.Conc(b)
		if op == ">>" {
			k = -k
		}
		if k > 4096 {
			f.unsup(n, "shift count")
		}
		if k >= 0 {
			return Big{m.Shl(a, int(k))}
		}
		return Big{m.Shr(a, int(min(-k, 1<<20)))}
	case ">>>":
		m.raise("TypeError", "BigInts have no unsigned right shift (line %d)", n.Line)
	case "**":
		k := m.Conc(b)
		if k >= 0 && k < 65 {
			r := Value(int64(1))
			for i := int64(0); i < k; i++ {
				r = m.Mul(r, a)
			}
			return Big{r}
		}
	}
	f.unsup(n, "BigInt operator "+op)
	return nil
}

func jsObjLike(v Value) bool {
	switch v.(type) {
	case *Obj, *List, *View, Native:
		return true
	}
	return false
}

func (f *jsFrame) binary(n *Node, op string, a, b Value) Value {
	m := f.m
	switch op {
	case "===":
		return f.strictEq(a, b)
	case "!==":
		return m.Not(f.strictEq(a, b))
	case "==":
		return f.looseEq(n, a, b)
	case "!=":
		return m.Not(f.looseEq(n, a, b))
	case "instanceof":
		o, ok := a.(*Obj)
		c, ok2 := b.(*Obj)
		if ok2 && ok {
			p := c.F["prototype"]
			for q := o.Proto; q != nil && p != nil; q = q.Proto {
				if q == (*p).(*Obj) {
					return true
				}
			}
			return false
		}
		if nt, is := b.(Native); is {
			switch x := a.(type) {
			case *View:
				return x.Kind == nt.Name
			case *List:
				return nt.Name == "Array"
			}
			return false
		}
		f.unsup(n, "instanceof")
	}
	if u, ok := a.(*Union); ok {
		return m.Lift(u, func(v Value) Value { return f.binary(n, op, v, b) })
	}
	if u, ok := b.(*Union); ok {
		return m.Lift(u, func(v Value) Value { return f.binary(n, op, a, v) })
	}
	switch op {
	case "+":
		if isStr(a) || isStr(b) {
			return f.concat(n, a, b)
		}
		if jsObjLike(a) || jsObjLike(b) {
			f.unsup(n, "addition of objects")
		}
		return f.arith(n, op, f.toNumeric(n, a), f.toNumeric(n, b))
	case "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", ">>>":
		return f.arith(n, op, f.toNumeric(n, a), f.toNumeric(n, b))
	case "<", ">", "<=", ">=":
		if op[0] == '>' {
			a, b = b, a
			op = "<" + op[1:]
		}
		if isStr(a) && isStr(b) {
			f.unsup(n, "text order")
		}
		return f.numCmp(op, f.toNumeric(n, a), f.toNumeric(n, b))
	}
	f.unsup(n, "operator "+op)
	return nil
}

// numCmp compares numbers of either kind: "<", "<=", "==".
func (f *jsFrame) numCmp(op string, a, b Value) Value {
	m := f.m
	conv := func(v Value) Value {
		switch x := v.(type) {
		case Big:
			return x.V
		case quot:
			return m.quotFlt(x)
		}
		return v
	}
	if q, ok := a.(quot); ok && isInt(b) {
		return m.Cmp(op, q.A, m.Mul(b, q.K))
	}
	if q, ok := b.(quot); ok && isInt(a) {
		return m.Cmp(op, m.Mul(a, q.K), q.A)
	}
	a, b = conv(a), conv(b)
	if isInt(a) && isInt(b) {
		return m.Cmp(op, a, b)
	}
	if x, ok := a.(float64); ok && x != x {
		return false
	}
	if x, ok := b.(float64); ok && x != x {
		return false
	}
	if r, ok := m.intFltCmp(op, a, b); ok {
		return r
	}
	x, _ := m.FltTerm(a)
	y, _ := m.FltTerm(b)
	return m.mkBool(m.P.UF(map[string]string{"<": "f64.lt", "<=": "f64.le", "==": "f64.eq"}[op], 0, x, y))
}

// jsType is the typeof class; null is "null".
func jsType(v Value) string {
	switch x := v.(type) {
	case Undef:
		return "undefined"
	case nil:
		return "null"
	case bool, *sym.Term:
		return "boolean"
	case int64, Int, float64, Flt, quot:
		return "number"
	case Big:
		return "bigint"
	case string, *Str:
		return "string"
	case Native:
		return "function"
	case *Obj:
		if x.Fn != nil {
			return "function"
		}
	}
	return "object"
}

func (f *jsFrame) strictEq(a, b Value) Value {
	m := f.m
	lift := func(u *Union, g func(v Value) Value) Value {
		r := m.boolT(g(u.V[len(u.V)-1]))
		for i := len(u.V) - 2; i >= 0; i-- {
			r = m.P.Ite(u.C[i], m.boolT(g(u.V[i])), r)
		}
		return m.mkBool(r)
	}
	if u, ok := a.(*Union); ok {
		return lift(u, func(v Value) Value { return f.strictEq(v, b) })
	}
	if u, ok := b.(*Union); ok {
		return lift(u, func(v Value) Value { return f.strictEq(a, v) })
	}
	t := jsType(a)
	if t != jsType(b) {
		return false
	}
	switch t {
	case "undefined", "null":
		return true
	case "boolean":
		return m.mkBool(m.P.Eq(m.boolT(a), m.boolT(b)))
	case "number", "bigint":
		return f.numCmp("==", a, b)
	case "string":
		return m.strEq(a, b)
	}
	if _, nat := a.(Native); nat {
		return false
	}
	return a == b
}

func (f *jsFrame) looseEq(n *Node, a, b Value) Value {
	m := f.m
	if u, ok := a.(*Union); ok {
		return m.Lift(u, func(v Value) Value { return f.looseEq(n, v, b) })
	}
	if u, ok := b.(*Union); ok {
		return m.Lift(u, func(v Value) Value { return f.looseEq(n, a, v) })
	}
	ta, tb := jsType(a), jsType(b)
	nul := func(t string) bool { return t == "null" || t == "undefined" }
	switch {
	case nul(ta) || nul(tb):
		return nul(ta) && nul(tb)
	case ta == tb:
		return f.strictEq(a, b)
	}
	num := func(t string) bool { return t == "number" || t == "bigint" || t == "boolean" }
	if num(ta) && num(tb) {
		return f.numCmp("==", f.toNumeric(n, a), f.toNumeric(n, b))
	}
	f.unsup(n, "loose equality of "+ta+" and "+tb)
	return nil
}

func (f *jsFrame) text(n *Node, v Value) *Str {
	m := f.m
	switch x := v.(type) {
	case int64:
		v = strconv.FormatInt(x, 10)
	case nil:
		v = "null"
	case Undef:
		v = "undefined"
	case bool:
		v = fmt.Sprint(x)
	case Big:
		if k, ok := x.V.(int64); ok {
			v = strconv.FormatInt(k, 10)
		}
	}
	s, ok := m.str(v)
	if !ok {
		f.unsup(n, fmt.Sprintf("text of %T", v))
	}
	return s
}

func (f *jsFrame) concat(n *Node, a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	x, y := f.text(n, a), f.text(n, b)
	r := &Str{Opaque: x.Opaque || y.Opaque}
	r.U = append(append(r.U, x.U...), y.U...)
	return r
}

func (f *jsFrame) unary(n *Node) Value {
	m := f.m
	op := n.S("operator")
	an := n.N("argument")
	if op == "typeof" && an.T == "Identifier" {
		if c, _ := f.lookup(an, an.S("name")); c == nil {
			return "undefined"
		}
	}
	v := f.eval(an)
	var ap func(v Value) Value
	ap = func(v Value) Value {
		switch op {
		case "typeof":
			if t := jsType(v); t != "null" {
				return t
			}
			return "object"
		case "!":
			return m.Not(f.truth(v))
		case "void":
			return Undef{}
		}
		if u, ok := v.(*Union); ok {
			return m.Lift(u, ap)
		}
		x := f.toNumeric(n, v)
		b, isBig := x.(Big)
		switch op {
		case "+":
			if isBig {
				m.raise("TypeError", "Cannot convert a BigInt value to a number (line %d)", n.Line)
			}
			return x
		case "-":
			if isBig {
				return Big{m.Neg(b.V)}
			}
			if q, ok := x.(quot); ok {
				return quot{m.Neg(q.A), q.K}
			}
			if isInt(x) {
				return m.Neg(x)
			}
			if y, ok := x.(float64); ok {
				return -y
			}
			return m.mkNum(m.P.UF("f64.neg", 64, m.fltT(x)))
		case "~":
			if isBig {
				return Big{m.Inv(b.V)}
			}
			return m.FromS(m.P.Not(f.toInt32(n, x)))
		}
		f.unsup(n, "operator "+op)
		return nil
	}
	if u, ok := v.(*Union); ok && op == "typeof" {
		return m.Lift(u, ap)
	}
	return ap(v)
}

func (f *jsFrame) logical(n *Node) Value {
	m := f.m
	v := f.eval(n.N("left"))
	op := n.S("operator")
	var c Value // evaluate the right side?
	switch op {
	case "&&":
		c = f.truth(v)
	case "||":
		c = m.Not(f.truth(v))
	default:
		c = f.looseEq(n, v, nil)
	}
	if t, ok := c.(*sym.Term); ok {
		if r, ok := m.Merge(t, func() (Value, bool) { return f.eval(n.N("right")), true }, func() (Value, bool) { return v, true }); ok {
			return r
		}
		c = m.Bool(t)
	}
	if c.(bool) {
		return f.eval(n.N("right"))
	}
	return v
}

// ---- library

var jsLibNode = &Node{T: "library"}

type jsFn = func(f *jsFrame, this Value, a []Value) Value

func jsNative(name string, g jsFn) Native {
	return Native{name, func(m *M, this Value, a []Value, _ map[string]Value) Value {
		return g(&jsFrame{m: m}, this, a)
	}}
}

func argAt(a []Value, i int) Value {
	if i < len(a) {
		return a[i]
	}
	return Undef{}
}

func byteCells(m *M, n int) *Buf {
	b := &Buf{B: make([]Value, n)}
	for i := range b.B {
		b.B[i] = m.P.BV(8, 0)
	}
	return b
}

func (f *jsFrame) length(v Value, what string) int {
	m := f.m
	x := f.toNumber(jsLibNode, v)
	if g, ok := x.(float64); ok {
		if g != g {
			return 0
		}
		m.raise("RangeError", "Invalid %s length", what)
	}
	if !isInt(x) {
		f.unsup(jsLibNode, what+" length")
	}
	k := m.Conc(x)
	if k < 0 || k > 1<<33 {
		m.raise("RangeError", "Invalid %s length: %d", what, k)
	}
	if k > 1<<16 {
		sym.Unsupported("%s of %d bytes", what, k)
	}
	return int(k)
}

var jsStatics map[string]Value

func init() {
	jsStatics = map[string]Value{
		"Array.isArray": jsNative("isArray", func(f *jsFrame, _ Value, a []Value) Value {
			_, ok := argAt(a, 0).(*List)
			return ok
		}),
		"Array.from":      jsNative("from", jsArrayFrom),
		"Uint8Array.from": jsNative("from", func(f *jsFrame, _ Value, a []Value) Value { return jsUint8Array(f, jsNewMark{}, a) }),
		"ArrayBuffer.isView": jsNative("isView", func(f *jsFrame, _ Value, a []Value) Value {
			w, ok := argAt(a, 0).(*View)
			return ok && w.Kind != "ArrayBuffer"
		}),
		"BigInt.asUintN": jsNative("asUintN", func(f *jsFrame, _ Value, a []Value) Value {
			n, b := jsAsN(f, a)
			if n == 0 {
				return Big{int64(0)}
			}
			return Big{f.m.FromU(f.m.Wide(b, n))}
		}),
		"BigInt.asIntN": jsNative("asIntN", func(f *jsFrame, _ Value, a []Value) Value {
			n, b := jsAsN(f, a)
			if n == 0 {
				return Big{int64(0)}
			}
			return Big{f.m.FromS(f.m.Wide(b, n))}
		}),
		"String.fromCharCode": jsNative("fromCharCode", func(f *jsFrame, _ Value, a []Value) Value {
			s := &Str{}
			for _, v := range a {
				s.U = append(s.U, f.m.P.Extract(f.toInt32(jsLibNode, v), 15, 0))
			}
			return s
		}),
		"Math.PI":    math.Pi,
		"Math.floor": jsNative("floor", jsRound("floor", math.Floor)),
		"Math.trunc": jsNative("trunc", jsRound("trunc", math.Trunc)),
		"Math.ceil":  jsNative("ceil", jsRound("ceil", math.Ceil)),
		"Math.pow": jsNative("pow", func(f *jsFrame, _ Value, a []Value) Value {
			return f.binary(jsLibNode, "**", argAt(a, 0), argAt(a, 1))
		}),
		"Math.fround": jsNative("fround", func(f *jsFrame, _ Value, a []Value) Value {
			t, ok := f.m.FltTerm(f.toNumber(jsLibNode, argAt(a, 0)))
			if !ok {
				f.unsup(jsLibNode, "Math.fround")
			}
			return f.m.mkNum(f.m.P.UF("f32.to.f64", 64, f.m.P.UF("f64.to.f32", 32, t)))
		}),
		"Math.min": jsNative("min", jsMinMax("<")),
		"Math.max": jsNative("max", jsMinMax(">")),
		"Number.isInteger": jsNative("isInteger", func(f *jsFrame, _ Value, a []Value) Value {
			switch argAt(a, 0).(type) {
			case int64, Int:
				return true
			case Flt, quot:
				f.unsup(jsLibNode, "Number.isInteger")
			}
			return false
		}),
		"Number.MAX_SAFE_INTEGER": int64(1)<<53 - 1,
		"Object.create": jsNative("create", func(f *jsFrame, _ Value, a []Value) Value {
			o := f.m.jsObject()
			o.Proto, _ = argAt(a, 0).(*Obj)
			return o
		}),
		"Object.freeze": jsNative("freeze", func(f *jsFrame, _ Value, a []Value) Value { return argAt(a, 0) }),
		"Object.keys": jsNative("keys", func(f *jsFrame, _ Value, a []Value) Value {
			l := &List{}
			switch o := argAt(a, 0).(type) {
			case *Obj:
				for _, k := range o.Keys {
					l.E = append(l.E, k)
				}
			case Undef, nil:
				f.m.raise("TypeError", "Cannot convert undefined or null to object")
			default:
				f.unsup(jsLibNode, "Object.keys")
			}
			return l
		}),
		"Object.assign": jsNative("assign", func(f *jsFrame, _ Value, a []Value) Value {
			t, ok := argAt(a, 0).(*Obj)
			if !ok {
				f.unsup(jsLibNode, "Object.assign")
			}
			for _, s := range a[1:] {
				if o, ok := s.(*Obj); ok {
					for _, k := range o.Keys {
						f.m.JsPut(t, k, *o.F[k])
					}
				}
			}
			return t
		}),
		"Object.defineProperty": jsNative("defineProperty", jsDefine),
		"Object.defineProperties": jsNative("defineProperties", func(f *jsFrame, _ Value, a []Value) Value {
			d, ok := argAt(a, 1).(*Obj)
			if !ok {
				f.unsup(jsLibNode, "Object.defineProperties")
			}
			for _, k := range d.Keys {
				jsDefine(f, nil, []Value{a[0], k, *d.F[k]})
			}
			return a[0]
		}),
	}
}

func jsDefine(f *jsFrame, _ Value, a []Value) Value {
	m := f.m
	o, ok := argAt(a, 0).(*Obj)
	d, ok2 := argAt(a, 2).(*Obj)
	if !ok || !ok2 {
		f.unsup(jsLibNode, "Object.defineProperty")
	}
	k := f.keyStr(jsLibNode, a[1])
	conf := func() bool {
		c, ok := d.F["configurable"]
		return ok && m.Bool(f.truth(*c))
	}
	if old := o.Acc[k]; old != nil && !old.Conf {
		m.raise("TypeError", "Cannot redefine property: %s", k)
	}
	g, hasG := d.F["get"]
	s, hasS := d.F["set"]
	if hasG || hasS {
		if o.Acc == nil {
			o.Acc = map[string]*Accessor{}
		}
		acc := &Accessor{Conf: conf()}
		if hasG {
			acc.Get = *g
		}
		if hasS {
			acc.Set = *s
		}
		o.Acc[k] = acc
		return o
	}
	var v Value = Undef{}
	if c, ok := d.F["value"]; ok {
		v = *c
	}
	m.jsPut(o, k, v)
	return o
}

func jsAsN(f *jsFrame, a []Value) (int, Value) {
	b, ok := argAt(a, 1).(Big)
	if !ok {
		f.m.raise("TypeError", "not a BigInt")
	}
	return int(f.m.Conc(argAt(a, 0))), b.V
}

func jsRound(name string, g func(float64) float64) jsFn {
	return func(f *jsFrame, _ Value, a []Value) Value {
		m := f.m
		switch x := f.toNumeric(jsLibNode, argAt(a, 0)).(type) {
		case int64, Int:
			return x
		case float64:
			return jsNum(g(x))
		case quot:
			switch name {
			case "floor":
				q, _ := m.FloorDivMod(x.A, x.K)
				return q
			case "trunc":
				q, _ := m.QuoRem(x.A, x.K)
				return q
			}
		case Big:
			m.raise("TypeError", "Cannot convert a BigInt value to a number")
		}
		f.unsup(jsLibNode, "Math."+name)
		return nil
	}
}

func jsMinMax(op string) jsFn {
	return func(f *jsFrame, _ Value, a []Value) Value {
		m := f.m
		r := f.toNumber(jsLibNode, argAt(a, 0))
		for _, v := range a[1:] {
			v = f.toNumber(jsLibNode, v)
			c := m.boolT(f.binary(jsLibNode, op, v, r))
			x, ok := m.Ite(c, v, r)
			if !ok {
				f.unsup(jsLibNode, "Math.min/max")
			}
			r = x
		}
		return r
	}
}

func jsArrayFrom(f *jsFrame, _ Value, a []Value) Value {
	l := &List{}
	switch x := argAt(a, 0).(type) {
	case *List:
		l.E = append(l.E, x.E...)
	case *View:
		for i := 0; i < x.N; i++ {
			l.E = append(l.E, f.m.FromU(x.Buf.B[x.Off+i].(*sym.Term)))
		}
	case *Obj:
		c, ok := x.F["length"]
		if !ok {
			f.unsup(jsLibNode, "Array.from")
		}
		for i := f.length(*c, "array"); i > 0; i-- {
			l.E = append(l.E, Undef{})
		}
	default:
		f.unsup(jsLibNode, "Array.from")
	}
	if fn, ok := argAt(a, 1).(*Obj); ok && fn.Fn != nil {
		for i := range l.E {
			l.E[i] = f.m.jsInvoke(fn.Fn, Undef{}, []Value{l.E[i], int64(i)})
		}
	}
	return l
}

func jsUint8Array(f *jsFrame, this Value, a []Value) Value {
	m := f.m
	if _, ok := this.(jsNewMark); !ok {
		m.raise("TypeError", "Constructor Uint8Array requires 'new'")
	}
	switch x := argAt(a, 0).(type) {
	case *View:
		if x.Kind == "ArrayBuffer" {
			return jsWindow(f, x, a, "Uint8Array")
		}
		return &View{Buf: &Buf{B: append([]Value{}, x.Buf.B[x.Off:x.Off+x.N]...)}, N: x.N, Kind: "Uint8Array"}
	case *List:
		b := &Buf{}
		for _, e := range x.E {
			b.B = append(b.B, f.toUint8(jsLibNode, e))
		}
		return &View{Buf: b, N: len(b.B), Kind: "Uint8Array"}
	case Undef:
		return &View{Buf: &Buf{}, Kind: "Uint8Array"}
	case Big:
		m.raise("TypeError", "Cannot convert a BigInt value to a number")
	}
	n := f.length(argAt(a, 0), "typed array")
	return &View{Buf: byteCells(m, n), N: n, Kind: "Uint8Array"}
}

func jsWindow(f *jsFrame, x *View, a []Value, kind string) Value {
	off, n := 0, 0
	if len(a) > 1 {
		if _, u := a[1].(Undef); !u {
			off = int(f.m.Conc(f.toNumber(jsLibNode, a[1])))
		}
	}
	n = x.N - off
	if len(a) > 2 {
		if _, u := a[2].(Undef); !u {
			n = int(f.m.Conc(f.toNumber(jsLibNode, a[2])))
		}
	}
	if off < 0 || n < 0 || off+n > x.N {
		f.m.raise("RangeError", "Invalid window of an ArrayBuffer")
	}
	return &View{Buf: x.Buf, Off: x.Off + off, N: n, Kind: kind}
}

func jsGlobals() map[string]Value {
	g := map[string]Value{}
	def := func(name string, fn jsFn) { g[name] = jsNative(name, fn) }
	def("Array", func(f *jsFrame, _ Value, a []Value) Value {
		l := &List{}
		if len(a) == 1 && jsType(a[0]) == "number" {
			for i := f.length(a[0], "array"); i > 0; i-- {
				l.E = append(l.E, Undef{})
			}
			return l
		}
		l.E = append(l.E, a...)
		return l
	})
	def("Uint8Array", jsUint8Array)
	def("ArrayBuffer", func(f *jsFrame, _ Value, a []Value) Value {
		n := f.length(argAt(a, 0), "buffer")
		return &View{Buf: byteCells(f.m, n), N: n, Kind: "ArrayBuffer"}
	})
	def("DataView", func(f *jsFrame, _ Value, a []Value) Value {
		x, ok := argAt(a, 0).(*View)
		if !ok || x.Kind != "ArrayBuffer" {
			f.m.raise("TypeError", "First argument to DataView constructor must be an ArrayBuffer")
		}
		return jsWindow(f, x, a, "DataView")
	})
	def("BigInt", func(f *jsFrame, _ Value, a []Value) Value {
		var conv func(v Value) Value
		conv = func(v Value) Value {
			m := f.m
			switch x := v.(type) {
			case *Union:
				return m.Lift(x, conv)
			case Undef, nil:
				m.raise("TypeError", "Cannot convert %v to a BigInt", x)
			case string, *Str:
				f.unsup(jsLibNode, "BigInt of text")
			}
			switch x := f.toNumeric(jsLibNode, v).(type) {
			case Big:
				return x
			case int64, Int:
				return Big{x}
			case float64:
				if x != math.Trunc(x) || math.IsInf(x, 0) {
					m.raise("RangeError", "%v cannot be converted to a BigInt", x)
				}
				b, _ := new(big.Float).SetFloat64(x).Int(nil)
				return Big{m.bigLit(b)}
			}
			f.unsup(jsLibNode, "BigInt of a fractional number")
			return nil
		}
		return conv(argAt(a, 0))
	})
	def("Number", func(f *jsFrame, _ Value, a []Value) Value {
		if len(a) == 0 {
			return int64(0)
		}
		v := f.toNumeric(jsLibNode, a[0])
		if u, ok := v.(*Union); ok {
			v = f.m.Pick(u)
		}
		if b, ok := v.(Big); ok {
			return f.m.num53(b.V)
		}
		return v
	})
	def("Boolean", func(f *jsFrame, _ Value, a []Value) Value { return f.truth(argAt(a, 0)) })
	def("String", func(f *jsFrame, _ Value, a []Value) Value {
		if len(a) == 0 {
			return ""
		}
		return f.text(jsLibNode, a[0])
	})
	def("isNaN", func(f *jsFrame, _ Value, a []Value) Value {
		x, ok := f.toNumber(jsLibNode, argAt(a, 0)).(float64)
		return ok && x != x
	})
	for _, n := range []string{"TypeError", "RangeError", "Error", "Symbol", "Map", "Set"} {
		n := n
		def(n, func(f *jsFrame, _ Value, a []Value) Value {
			if strings.HasSuffix(n, "Error") {
				return f.m.jsObject()
			}
			f.unsup(jsLibNode, n)
			return nil
		})
	}
	def("Object", func(f *jsFrame, _ Value, a []Value) Value { return f.m.jsObject() })
	g["Math"] = Native{Name: "Math", Fn: func(m *M, _ Value, _ []Value, _ map[string]Value) Value {
		m.raise("TypeError", "Math is not a function")
		return nil
	}}
	g["NaN"], g["Infinity"] = math.NaN(), math.Inf(1)
	g["globalThis"] = Undef{}
	return g
}
