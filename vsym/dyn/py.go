package dyn

import (
	"fmt"
	"math/big"
	"strings"

	"vsym/sym"
)

// Raised is a modelled exception.
type Raised struct {
	Class string
	Msg   string
}

func (m *M) raise(class, f string, a ...any) {
	if m.P.NoFork {
		// a speculated arm must not raise: let the merge fall back to a fork
		panic(Raised{class, ""})
	}
	panic(Raised{class, fmt.Sprintf(f, a...)})
}

// Catch runs f and returns the exception it raised, if any.
func (m *M) Catch(f func()) (r *Raised) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(Raised); ok {
				r = &e
				return
			}
			panic(x)
		}
	}()
	f()
	return nil
}

// PyMod is a loaded Python module: classes and functions, without any state
// that a path could change.
type PyMod struct {
	Tree *Node
	G    map[string]*Value
}

type unbound struct{}

// Func is a function of the modelled program.
type Func struct {
	Name   string
	Params []string
	Def    []*Node // defaults, aligned to the end of Params
	DefV   []Value
	Rest   string
	Body   []*Node
	Expr   *Node // arrow functions and lambdas
	Locals []string
	Node   *Node
	Env    *Env // JavaScript closure
	Py     *PyMod
	Arrow  bool
	Obj    *Obj // JavaScript function object
	Js     *JsMod
	This   Value // of an arrow function
	Class  bool
	Method bool
	Strict bool // JavaScript strict code
}

type pyProp struct{ get, set *Func }
type pyStatic struct{ f Value }
type pyClassM struct{ f Value }

// NewPy executes the module body.
func NewPy(tree *Node, p *sym.Path) (mod *PyMod, err error) {
	mod = &PyMod{Tree: tree, G: map[string]*Value{}}
	m := NewM(p)
	if r := m.Catch(func() {
		f := &pyFrame{m: m, mod: mod, vars: mod.G, global: true}
		f.block(tree.L("body"))
	}); r != nil {
		return nil, fmt.Errorf("importing the generated Python module raises %s %s", r.Class, r.Msg)
	}
	return mod, nil
}

type pyFrame struct {
	m      *M
	mod    *PyMod
	vars   map[string]*Value
	global bool
	class  *Class
	ret    Value
}

type ctl int

const (
	cNext ctl = iota
	cBreak
	cContinue
	cReturn
)

func (f *pyFrame) unsup(n *Node, what string) {
	sym.Unsupported("python: %s %s (line %d)", what, n.T, n.Line)
}

func (f *pyFrame) block(b []*Node) ctl {
	for i, s := range b {
		if s.T == "If" && !f.global {
			if c, done := f.ifStmt(s, b[i+1:]); done {
				return c
			} else if c != cNext {
				return c
			}
			continue
		}
		if c := f.stmt(s); c != cNext {
			return c
		}
	}
	return cNext
}

// ifStmt executes an if statement; done=true means that the rest of the block
// has been executed as well (both arms left the function).
func (f *pyFrame) ifStmt(s *Node, rest []*Node) (ctl, bool) {
	c := f.truth(f.eval(s.N("test")))
	if t, ok := c.(*sym.Term); ok {
		arm := func(b []*Node) func() (Value, bool) {
			return func() (Value, bool) { return nil, f.block(b) == cNext }
		}
		if mergeable(s.L("body")) && mergeable(s.L("orelse")) {
			if _, ok := f.m.Merge(t, arm(s.L("body")), arm(s.L("orelse"))); ok {
				return cNext, false
			}
		}
		c = f.m.Bool(t)
	}
	if c.(bool) {
		return f.block(s.L("body")), false
	}
	return f.block(s.L("orelse")), false
}

// mergeable: the statements are straight-line code.
func mergeable(b []*Node) bool {
	for _, s := range b {
		switch s.T {
		case "Assign", "AugAssign", "AnnAssign", "Pass", "Expr":
		case "If":
			if !mergeable(s.L("body")) || !mergeable(s.L("orelse")) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (f *pyFrame) stmt(s *Node) ctl {
	m := f.m
	m.P.Step()
	switch s.T {
	case "Expr":
		f.eval(s.N("value"))
	case "Pass":
	case "Assign":
		v := f.eval(s.N("value"))
		for _, t := range s.L("targets") {
			f.assign(t, v)
		}
	case "AnnAssign":
		if s.N("value") != nil {
			f.assign(s.N("target"), f.eval(s.N("value")))
		}
	case "AugAssign":
		t := s.N("target")
		switch t.T {
		case "Name":
			f.assign(t, f.binop(s, s.S("op"), f.name(t), f.eval(s.N("value"))))
		case "Attribute":
			o := f.eval(t.N("value"))
			old := f.getattr(t, o, t.S("attr"))
			f.setattr(t, o, t.S("attr"), f.binop(s, s.S("op"), old, f.eval(s.N("value"))))
		case "Subscript":
			o := f.eval(t.N("value"))
			if t.N("slice").T == "Slice" {
				f.unsup(s, "augmented slice")
			}
			k := f.eval(t.N("slice"))
			old := f.index(t, o, k)
			f.setindex(t, o, k, f.binop(s, s.S("op"), old, f.eval(s.N("value"))))
		}
	case "Return":
		if s.N("value") != nil {
			f.ret = f.eval(s.N("value"))
		} else {
			f.ret = nil
		}
		return cReturn
	case "If":
		c, _ := f.ifStmt(s, nil)
		return c
	case "While":
		for i := 0; ; i++ {
			m.P.Step()
			if !f.m.Bool(f.truth(f.eval(s.N("test")))) {
				return f.block(s.L("orelse"))
			}
			switch f.block(s.L("body")) {
			case cBreak:
				return cNext
			case cReturn:
				return cReturn
			}
		}
	case "For":
		it := f.iter(s, f.eval(s.N("iter")))
		for i := 0; ; i++ {
			v, ok := it(i)
			if !ok {
				return f.block(s.L("orelse"))
			}
			f.assign(s.N("target"), v)
			switch f.block(s.L("body")) {
			case cBreak:
				return cNext
			case cReturn:
				return cReturn
			}
		}
	case "Break":
		return cBreak
	case "Continue":
		return cContinue
	case "Import", "ImportFrom":
		for _, a := range s.L("names") {
			n := a.S("asname")
			if n == "" {
				n = a.S("name")
			}
			v := Value(n)
			if s.T == "Import" {
				v = pyModule(a.S("name"))
			} else {
				v = pyImported{s.S("module"), a.S("name")}
			}
			f.bind(n, v)
		}
	case "FunctionDef":
		f.funcDef(s)
	case "ClassDef":
		c := &Class{Name: s.S("name"), F: map[string]*Value{}}
		for _, b := range s.L("bases") {
			bv := f.eval(b)
			if bc, ok := bv.(*Class); ok {
				c.Bases = append(c.Bases, bc)
			} else if im, ok := bv.(pyImported); ok && im.mod == "enum" {
				c.Enum = []EnumMember{}
			}
		}
		cf := &pyFrame{m: m, mod: f.mod, vars: f.vars, global: true, class: c}
		cf.block(s.L("body"))
		if c.Enum != nil {
			for _, k := range c.Keys {
				if v, ok := (*c.F[k]).(int64); ok {
					c.Enum = append(c.Enum, EnumMember{k, v})
					*c.F[k] = EnumVal{c, v}
				}
			}
		}
		f.bind(c.Name, c)
	case "Raise":
		name := "Exception"
		if e := s.N("exc"); e != nil {
			if e.T == "Call" {
				e = e.N("func")
			}
			name = e.S("id")
		}
		m.raise(name, "raised at line %d", s.Line)
	case "Assert":
		if !m.Bool(f.truth(f.eval(s.N("test")))) {
			m.raise("AssertionError", "line %d", s.Line)
		}
	case "Try":
		return f.try(s)
	case "Global", "Nonlocal":
		f.unsup(s, "statement")
	default:
		f.unsup(s, "statement")
	}
	return cNext
}

func (f *pyFrame) try(s *Node) ctl {
	var c ctl
	r := f.m.Catch(func() { c = f.block(s.L("body")) })
	if r == nil {
		if c == cNext {
			c = f.block(s.L("orelse"))
		}
	} else {
		done := false
		for _, h := range s.L("handlers") {
			if pyCatches(h.N("h_type"), r.Class) {
				if h.S("name") != "" {
					f.bind(h.S("name"), "exception "+r.Class)
				}
				c = f.block(h.L("body"))
				done = true
				break
			}
		}
		if !done {
			if fc := f.block(s.L("finalbody")); fc != cNext {
				return fc
			}
			panic(*r)
		}
	}
	if fc := f.block(s.L("finalbody")); fc != cNext {
		return fc
	}
	return c
}

var pyBases = map[string]string{"UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError", "UnicodeError": "ValueError", "ValueError": "Exception",
	"IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception", "TypeError": "Exception", "OverflowError": "ArithmeticError", "ZeroDivisionError": "ArithmeticError",
	"ArithmeticError": "Exception", "AttributeError": "Exception", "struct.error": "Exception", "MemoryError": "Exception", "AssertionError": "Exception", "UnboundLocalError": "NameError", "NameError": "Exception", "BufferError": "Exception"}

func pyCatches(t *Node, class string) bool {
	if t == nil {
		return true
	}
	if t.T == "Tuple" {
		for _, e := range t.L("elts") {
			if pyCatches(e, class) {
				return true
			}
		}
		return false
	}
	n := t.S("id")
	if t.T == "Attribute" {
		n = t.N("value").S("id") + "." + t.S("attr")
	}
	for c := class; c != ""; c = pyBases[c] {
		if c == n || n == "BaseException" {
			return true
		}
	}
	return false
}

type pyModule string
type pyImported struct{ mod, name string }

func (f *pyFrame) funcDef(s *Node) {
	fn := &Func{Name: s.S("name"), Body: s.L("body"), Node: s, Py: f.mod}
	if f.class != nil {
		fn.Name = f.class.Name + "." + fn.Name
	}
	a := s.N("args")
	for _, x := range append(append([]*Node{}, a.L("posonlyargs")...), a.L("args")...) {
		fn.Params = append(fn.Params, x.S("arg"))
	}
	if a.N("vararg") != nil || a.N("kwarg") != nil {
		fn.Rest = "*"
	}
	for _, x := range a.L("kwonlyargs") {
		fn.Params = append(fn.Params, x.S("arg"))
	}
	for _, d := range a.L("defaults") {
		fn.DefV = append(fn.DefV, f.eval(d))
	}
	if !f.global {
		f.unsup(s, "nested function")
	}
	seen := map[string]bool{}
	for _, p := range fn.Params {
		seen[p] = true
	}
	locals(fn.Body, seen, &fn.Locals)
	var v Value = fn
	ds := s.L("decorator_list")
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		switch {
		case d.T == "Name" && d.S("id") == "property":
			v = &pyProp{get: fn}
		case d.T == "Name" && d.S("id") == "staticmethod":
			v = &pyStatic{v}
		case d.T == "Name" && d.S("id") == "classmethod":
			v = &pyClassM{v}
		case d.T == "Name" && d.S("id") == "overload":
			// typing only
		case d.T == "Attribute" && (d.S("attr") == "setter" || d.S("attr") == "getter"):
			old, ok := f.name(d.N("value")).(*pyProp)
			if !ok {
				f.unsup(s, "decorator")
			}
			p := *old
			if d.S("attr") == "setter" {
				p.set = fn
			} else {
				p.get = fn
			}
			v = &p
		case d.T == "Call" && d.N("func").S("id") == "property":
			f.unsup(s, "decorator")
		default:
			f.unsup(s, "decorator")
		}
	}
	f.bind(s.S("name"), v)
}

// locals collects assigned names.
func locals(b []*Node, seen map[string]bool, out *[]string) {
	add := func(n string) {
		if n != "" && !seen[n] {
			seen[n] = true
			*out = append(*out, n)
		}
	}
	var tgt func(t *Node)
	tgt = func(t *Node) {
		if t == nil {
			return
		}
		switch t.T {
		case "Name":
			add(t.S("id"))
		case "Tuple", "List":
			for _, e := range t.L("elts") {
				tgt(e)
			}
		case "Starred":
			tgt(t.N("value"))
		}
	}
	for _, s := range b {
		switch s.T {
		case "Assign":
			for _, t := range s.L("targets") {
				tgt(t)
			}
		case "AnnAssign", "AugAssign", "For":
			tgt(s.N("target"))
		}
		locals(s.L("body"), seen, out)
		locals(s.L("orelse"), seen, out)
		locals(s.L("finalbody"), seen, out)
		for _, h := range s.L("handlers") {
			add(h.S("name"))
			locals(h.L("body"), seen, out)
		}
	}
}

func (f *pyFrame) bind(n string, v Value) {
	if f.class != nil {
		if f.class.F[n] == nil {
			f.class.F[n] = new(Value)
			f.class.Keys = append(f.class.Keys, n)
		}
		*f.class.F[n] = v
		return
	}
	p := f.vars[n]
	if p == nil {
		p = new(Value)
		f.vars[n] = p
	}
	f.m.Set(p, v)
}

func (f *pyFrame) assign(t *Node, v Value) {
	switch t.T {
	case "Name":
		f.bind(t.S("id"), v)
	case "Attribute":
		f.setattr(t, f.eval(t.N("value")), t.S("attr"), v)
	case "Subscript":
		o := f.eval(t.N("value"))
		if t.N("slice").T == "Slice" {
			f.setslice(t, o, t.N("slice"), v)
			return
		}
		f.setindex(t, o, f.eval(t.N("slice")), v)
	case "Tuple", "List":
		var vs []Value
		it := f.iter(t, v)
		for i := 0; ; i++ {
			x, ok := it(i)
			if !ok {
				break
			}
			vs = append(vs, x)
		}
		if len(vs) != len(t.L("elts")) {
			f.m.raise("ValueError", "cannot unpack %d values", len(vs))
		}
		for i, e := range t.L("elts") {
			f.assign(e, vs[i])
		}
	default:
		f.unsup(t, "assignment target")
	}
}

func (f *pyFrame) name(n *Node) Value {
	id := n.S("id")
	if f.class != nil {
		if p := f.class.F[id]; p != nil {
			return *p
		}
	}
	if p := f.vars[id]; p != nil {
		if _, u := (*p).(unbound); u {
			f.m.raise("UnboundLocalError", "%s", id)
		}
		return *p
	}
	if p := f.mod.G[id]; p != nil {
		return *p
	}
	switch id {
	case "True":
		return true
	case "False":
		return false
	case "None":
		return nil
	}
	if _, ok := pyBuiltins[id]; ok {
		return pyBuiltin(id)
	}
	if _, ok := pyBases[id]; ok || id == "Exception" {
		return pyBuiltin(id)
	}
	f.m.raise("NameError", "%s", id)
	return nil
}

type pyBuiltin string

var pyBuiltins = map[string]bool{"range": true, "len": true, "bytes": true, "bytearray": true, "memoryview": true, "str": true, "isinstance": true, "bool": true,
	"int": true, "float": true, "max": true, "min": true, "abs": true, "enumerate": true, "zip": true, "list": true, "tuple": true, "property": true, "type": true, "super": true, "sum": true, "reversed": true, "object": true, "any": true, "all": true, "print": true}

func (f *pyFrame) truth(v Value) Value {
	m := f.m
	switch x := v.(type) {
	case nil:
		return false
	case bool:
		return x
	case *sym.Term:
		return m.mkBool(x)
	case int64:
		return x != 0
	case Int:
		return m.mkBool(m.P.NonZero(x.T))
	case float64:
		return x != 0
	case Flt:
		return m.Not(m.mkBool(m.P.UF("f64.eq", 0, x.T, m.P.BV(64, 0))))
	case string:
		return x != ""
	case *Str:
		return len(x.U) > 0
	case *List:
		return len(x.E) > 0
	case *View:
		return x.N > 0
	}
	return true
}

func (f *pyFrame) eval(n *Node) Value {
	m := f.m
	m.P.Step()
	switch n.T {
	case "Constant":
		if !n.has {
			v := f.constant(n)
			if _, t := v.(Int); t {
				return v // bound to this path's terms
			}
			return v
		}
		return n.lit
	case "Name":
		return f.name(n)
	case "Attribute":
		return f.getattr(n, f.eval(n.N("value")), n.S("attr"))
	case "Subscript":
		o := f.eval(n.N("value"))
		if n.N("slice").T == "Slice" {
			return f.slice(n, o, n.N("slice"))
		}
		switch o.(type) {
		case pyImported, *Class, pyBuiltin:
			return o // typing
		}
		return f.index(n, o, f.eval(n.N("slice")))
	case "BinOp":
		a := f.eval(n.N("left"))
		return f.binop(n, n.S("op"), a, f.eval(n.N("right")))
	case "UnaryOp":
		v := f.eval(n.N("operand"))
		switch n.S("op") {
		case "Not":
			return m.Not(f.truth(v))
		case "Invert":
			if isInt(v) || isBool(v) {
				return m.Inv(f.num(v))
			}
		case "USub":
			if isInt(v) || isBool(v) {
				return m.Neg(f.num(v))
			}
			if x, ok := v.(float64); ok {
				return -x
			}
			if x, ok := v.(Flt); ok {
				return m.mkFlt(m.P.UF("f64.neg", 64, x.T))
			}
		case "UAdd":
			return v
		}
		m.raise("TypeError", "bad operand for unary %s (line %d)", n.S("op"), n.Line)
	case "BoolOp":
		return f.boolop(n, n.L("values"), n.S("op") == "And")
	case "Compare":
		return f.compare(n)
	case "IfExp":
		c := f.truth(f.eval(n.N("test")))
		if t, ok := c.(*sym.Term); ok {
			if v, ok := m.Merge(t, func() (Value, bool) { return f.eval(n.N("body")), true }, func() (Value, bool) { return f.eval(n.N("orelse")), true }); ok {
				return v
			}
			c = m.Bool(t)
		}
		if c.(bool) {
			return f.eval(n.N("body"))
		}
		return f.eval(n.N("orelse"))
	case "Tuple", "List":
		l := &List{Tuple: n.T == "Tuple"}
		for _, e := range n.L("elts") {
			if e.T == "Starred" {
				f.unsup(e, "expression")
			}
			l.E = append(l.E, f.eval(e))
		}
		return l
	case "ListComp", "GeneratorExp":
		gs := n.L("generators")
		if len(gs) != 1 {
			f.unsup(n, "comprehension")
		}
		g := gs[0]
		l := &List{}
		it := f.iter(n, f.eval(g.N("iter")))
		in := &pyFrame{m: m, mod: f.mod, vars: map[string]*Value{}, global: f.global}
		for k, v := range f.vars {
			in.vars[k] = v
		}
		var names []string
		locals([]*Node{{T: "For", F: map[string]any{"target": g.N("target")}}}, map[string]bool{}, &names)
		for _, k := range names {
			in.vars[k] = new(Value)
		}
	next:
		for i := 0; ; i++ {
			v, ok := it(i)
			if !ok {
				break
			}
			in.assign(g.N("target"), v)
			for _, c := range g.L("ifs") {
				if !m.Bool(in.truth(in.eval(c))) {
					continue next
				}
			}
			l.E = append(l.E, in.eval(n.N("elt")))
		}
		return l
	case "Call":
		return f.call(n)
	case "JoinedStr":
		return "" // formatted text: only in messages
	}
	f.unsup(n, "expression")
	return nil
}

func (f *pyFrame) boolop(n *Node, vs []*Node, and bool) Value {
	v := f.eval(vs[0])
	if len(vs) == 1 {
		return v
	}
	c := f.truth(v)
	if t, ok := c.(*sym.Term); ok {
		if !and {
			t = f.m.P.Not(t)
		}
		if r, ok := f.m.Merge(t, func() (Value, bool) { return f.boolop(n, vs[1:], and), true }, func() (Value, bool) { return v, true }); ok {
			return r
		}
		c = f.m.Bool(c)
	}
	if c.(bool) == and {
		return f.boolop(n, vs[1:], and)
	}
	return v
}

func (f *pyFrame) constant(n *Node) Value {
	switch n.S("kind") {
	case "int":
		b, ok := new(big.Int).SetString(n.S("v"), 10)
		if !ok {
			f.unsup(n, "integer")
		}
		return f.m.bigLit(b)
	case "float":
		var x float64
		if _, err := fmt.Sscan(n.S("v"), &x); err != nil {
			f.unsup(n, "float")
		}
		return x
	case "str":
		return n.S("v")
	case "bool":
		return n.S("v") == "True"
	case "none":
		return nil
	case "ellipsis":
		return Undef{}
	case "bytes":
		v := &View{Buf: &Buf{ReadOnly: true}, Kind: "bytes"}
		for _, c := range n.L("bytes") {
			_ = c
		}
		s := n.S("v")
		for i := 0; i+1 < len(s); i += 2 {
			var b int
			fmt.Sscanf(s[i:i+2], "%x", &b)
			v.Buf.B = append(v.Buf.B, f.m.P.BV(8, uint64(b)))
		}
		v.N = len(v.Buf.B)
		return v
	}
	f.unsup(n, "constant")
	return nil
}

// num turns booleans into integers.
func (f *pyFrame) num(v Value) Value {
	switch x := v.(type) {
	case bool:
		if x {
			return int64(1)
		}
		return int64(0)
	case *sym.Term:
		return f.m.mk(f.m.term(x))
	}
	return v
}

func (f *pyFrame) binop(n *Node, op string, a, b Value) Value {
	m := f.m
	if isBool(a) && isBool(b) {
		x, ok1 := a.(bool)
		y, ok2 := b.(bool)
		p, q := m.boolT(a), m.boolT(b)
		switch op {
		case "BitAnd":
			if ok1 && ok2 {
				return x && y
			}
			return m.mkBool(m.P.And(p, q))
		case "BitOr":
			return m.mkBool(m.P.Or(p, q))
		case "BitXor":
			return m.mkBool(m.P.Xor(p, q))
		}
	}
	if isBool(a) {
		a = f.num(a)
	}
	if isBool(b) {
		b = f.num(b)
	}
	if isInt(a) && isInt(b) {
		switch op {
		case "Add":
			return m.Add(a, b)
		case "Sub":
			return m.Sub(a, b)
		case "Mult":
			return m.Mul(a, b)
		case "BitAnd":
			return m.And(a, b)
		case "BitOr":
			return m.Or(a, b)
		case "BitXor":
			return m.Xor(a, b)
		case "LShift", "RShift":
			if m.Bool(m.Cmp("<", b, int64(0))) {
				m.raise("ValueError", "negative shift count")
			}
			k, ok := b.(int64)
			if !ok {
				if op == "RShift" {
					return m.ShrSym(a, b)
				}
				k = m.Conc(b)
			}
			if k > 5000 {
				if op == "LShift" {
					sym.Unsupported("python: shift by %d", k)
				}
				k = 5000
			}
			if op == "LShift" {
				return m.Shl(a, int(k))
			}
			return m.Shr(a, int(k))
		case "FloorDiv", "Mod":
			if m.Bool(m.Cmp("==", b, int64(0))) {
				m.raise("ZeroDivisionError", "line %d", n.Line)
			}
			q, r := m.FloorDivMod(a, b)
			if op == "Mod" {
				return r
			}
			return q
		case "Div":
			if m.Bool(m.Cmp("==", b, int64(0))) {
				m.raise("ZeroDivisionError", "line %d", n.Line)
			}
			return f.fbin("div", m.IntToFlt(a), m.IntToFlt(b))
		case "Pow":
			y, ok := b.(int64)
			if ok && y >= 0 && y < 64 {
				r := Value(int64(1))
				for i := int64(0); i < y; i++ {
					r = m.Mul(r, a)
				}
				return r
			}
			return f.fbin("pow", m.IntToFlt(a), m.IntToFlt(b))
		}
	}
	if (isInt(a) || isFlt(a)) && (isInt(b) || isFlt(b)) {
		if isInt(a) {
			a = m.IntToFlt(a)
		}
		if isInt(b) {
			b = m.IntToFlt(b)
		}
		switch op {
		case "Add":
			return f.fbin("add", a, b)
		case "Sub":
			return f.fbin("sub", a, b)
		case "Mult":
			return f.fbin("mul", a, b)
		case "Div":
			if m.Bool(m.mkBool(m.P.UF("f64.eq", 0, m.fltT(b), m.P.BV(64, 0)))) {
				m.raise("ZeroDivisionError", "line %d", n.Line)
			}
			return f.fbin("div", a, b)
		case "Pow":
			return f.fbin("pow", a, b)
		case "Mod":
			return m.mkFlt(m.P.UF("py.fmod", 64, m.fltT(a), m.fltT(b)))
		}
		m.raise("TypeError", "float operand of %s (line %d)", op, n.Line)
	}
	switch x := a.(type) {
	case string, *Str:
		if isStr(b) && op == "Add" {
			p, _ := m.str(a)
			q, _ := m.str(b)
			return &Str{U: append(append([]*sym.Term{}, p.U...), q.U...), Opaque: p.Opaque || q.Opaque}
		}
	case *View:
		if y, ok := b.(*View); ok && op == "Add" {
			r := &View{Buf: &Buf{}, Kind: x.Kind, N: x.N + y.N}
			for _, s := range []*View{x, y} {
				for i := 0; i < s.N; i++ {
					r.Buf.B = append(r.Buf.B, s.Buf.B[s.Off+i])
				}
			}
			return r
		}
		if k, ok := b.(int64); ok && op == "Mult" {
			r := &View{Buf: &Buf{}, Kind: x.Kind}
			for j := int64(0); j < k; j++ {
				for i := 0; i < x.N; i++ {
					r.Buf.B = append(r.Buf.B, x.Buf.B[x.Off+i])
				}
			}
			r.N = len(r.Buf.B)
			return r
		}
	case *List:
		if k, ok := b.(int64); ok && op == "Mult" {
			r := &List{Tuple: x.Tuple}
			for j := int64(0); j < k; j++ {
				r.E = append(r.E, x.E...)
			}
			return r
		}
		if y, ok := b.(*List); ok && op == "Add" {
			return &List{Tuple: x.Tuple, E: append(append([]Value{}, x.E...), y.E...)}
		}
	}
	m.raise("TypeError", "unsupported operands for %s (line %d): %T %T", op, n.Line, a, b)
	return nil
}

func (f *pyFrame) fbin(op string, a, b Value) Value {
	return f.m.mkFlt(f.m.P.UF("f64."+op, 64, f.m.fltT(a), f.m.fltT(b)))
}

func (f *pyFrame) compare(n *Node) Value {
	l := f.eval(n.N("left"))
	var res Value = true
	for i, r := range n.L("comparators") {
		op := strings.Fields(n.S("ops"))[i]
		rv := f.eval(r)
		c := f.cmp(n, op, l, rv)
		if len(n.L("comparators")) == 1 {
			return c
		}
		switch {
		case c == false:
			return false
		case res == true:
			res = c
		case c != true:
			res = f.m.mkBool(f.m.P.And(f.m.boolT(res), f.m.boolT(c)))
		}
		l = rv
	}
	return res
}

func (f *pyFrame) cmp(n *Node, op string, a, b Value) Value {
	m := f.m
	switch op {
	case "Is", "IsNot":
		r := false
		switch x := a.(type) {
		case nil:
			r = b == nil
		case *sym.Term, Int, Flt:
			if b == nil {
				break
			}
			if isBool(a) && isBool(b) {
				return f.neg(op == "IsNot", m.mkBool(m.P.Eq(m.boolT(a), m.boolT(b))))
			}
			f.unsup(n, "identity of numbers")
		case bool:
			if t, ok := b.(*sym.Term); ok {
				return f.neg(op == "IsNot", m.mkBool(m.P.Eq(m.P.Bool(x), t)))
			}
			y, ok := b.(bool)
			r = ok && x == y
		case EnumVal:
			if y, ok := b.(EnumVal); ok && y.C == x.C {
				return f.neg(op == "IsNot", m.Cmp("==", x.V, y.V))
			}
		default:
			r = comparable(a) && comparable(b) && a == b
		}
		return r != (op == "IsNot")
	case "In", "NotIn":
		l, ok := b.(*List)
		if !ok {
			f.unsup(n, "membership")
		}
		var r Value = false
		for _, e := range l.E {
			c := f.cmp(n, "Eq", a, e)
			r = m.mkBool(m.P.Or(m.boolT(r), m.boolT(c)))
		}
		return f.neg(op == "NotIn", r)
	case "NotEq":
		return m.Not(f.cmp(n, "Eq", a, b))
	case "Gt":
		return f.cmp(n, "Lt", b, a)
	case "GtE":
		return f.cmp(n, "LtE", b, a)
	}
	sop := map[string]string{"Eq": "==", "Lt": "<", "LtE": "<="}[op]
	fop := map[string]string{"Eq": "f64.eq", "Lt": "f64.lt", "LtE": "f64.le"}[op]
	na, nb := f.num(a), f.num(b)
	if isInt(na) && isInt(nb) {
		return m.Cmp(sop, na, nb)
	}
	if (isInt(na) || isFlt(na)) && (isInt(nb) || isFlt(nb)) {
		if r, ok := m.intFltCmp(sop, na, nb); ok {
			return r
		}
		if isInt(na) {
			na = m.IntToFlt(na)
		}
		if isInt(nb) {
			nb = m.IntToFlt(nb)
		}
		return m.mkBool(m.P.UF(fop, 0, m.fltT(na), m.fltT(nb)))
	}
	if op == "Eq" {
		if isStr(a) && isStr(b) {
			return m.strEq(a, b)
		}
		switch x := a.(type) {
		case *View:
			if y, ok := b.(*View); ok {
				if x.N != y.N {
					return false
				}
				r := m.P.True()
				for i := 0; i < x.N; i++ {
					r = m.P.And(r, m.P.Eq(x.Buf.B[x.Off+i].(*sym.Term), y.Buf.B[y.Off+i].(*sym.Term)))
				}
				return m.mkBool(r)
			}
			return false
		case EnumVal:
			if y, ok := b.(EnumVal); ok && y.C == x.C {
				return m.Cmp("==", x.V, y.V)
			}
			return false
		case *List:
			y, ok := b.(*List)
			if !ok || len(x.E) != len(y.E) || x.Tuple != y.Tuple {
				return false
			}
			r := m.P.True()
			for i := range x.E {
				r = m.P.And(r, m.boolT(f.cmp(n, "Eq", x.E[i], y.E[i])))
			}
			return m.mkBool(r)
		}
		return comparable(a) && comparable(b) && a == b
	}
	m.raise("TypeError", "unordered operands (line %d)", n.Line)
	return nil
}

// intFltCmp compares an integer with a concrete float exactly.
func (m *M) intFltCmp(op string, a, b Value) (Value, bool) {
	f, ok := b.(float64)
	if !ok || !isInt(a) {
		if x, ok := a.(float64); ok && isInt(b) {
			switch op {
			case "==":
				return m.intFltCmp("==", b, x)
			case "<":
				v, ok := m.intFltCmp("<=", b, x)
				if ok {
					return m.Not(v), true
				}
			case "<=":
				v, ok := m.intFltCmp("<", b, x)
				if ok {
					return m.Not(v), true
				}
			}
		}
		return nil, false
	}
	if f != f {
		return nil, false
	}
	if f > 1e300 || f < -1e300 {
		return op != "==" && f > 0, true
	}
	bf := new(big.Float).SetFloat64(f)
	fl, _ := bf.Int(nil)
	exact := new(big.Float).SetInt(fl).Cmp(bf) == 0
	if !exact && f < 0 {
		fl.Sub(fl, big.NewInt(1)) // floor
	}
	fv := m.bigLit(fl)
	switch op {
	case "==":
		if !exact {
			return false, true
		}
		return m.Cmp("==", a, fv), true
	case "<":
		if exact {
			return m.Cmp("<", a, fv), true
		}
		return m.Cmp("<=", a, fv), true
	}
	return m.Cmp("<=", a, fv), true
}

func (f *pyFrame) neg(b bool, v Value) Value {
	if b {
		return f.m.Not(v)
	}
	return v
}

func (m *M) strEq(a, b Value) Value {
	x, _ := m.str(a)
	y, _ := m.str(b)
	if x.Opaque || y.Opaque {
		sym.Unsupported("comparison of text of unknown contents")
	}
	if len(x.U) != len(y.U) {
		return false
	}
	r := m.P.True()
	for i := range x.U {
		r = m.P.And(r, m.P.Eq(x.U[i], y.U[i]))
	}
	return m.mkBool(r)
}

func (c *Class) find(n string) (Value, bool) {
	if p := c.F[n]; p != nil {
		return *p, true
	}
	for _, b := range c.Bases {
		if v, ok := b.find(n); ok {
			return v, true
		}
	}
	return nil, false
}

func (f *pyFrame) getattr(n *Node, o Value, a string) Value {
	m := f.m
	switch x := o.(type) {
	case *Obj:
		if x.Class != nil {
			v, ok := x.Class.find(a)
			if p, is := v.(*pyProp); ok && is {
				if p.get == nil {
					m.raise("AttributeError", "unreadable %s", a)
				}
				return m.CallPy(p.get, []Value{x}, nil)
			}
			if q := x.F[a]; q != nil {
				return *q
			}
			if ok {
				switch v := v.(type) {
				case *Func:
					return &Bound{x, v}
				case *pyStatic:
					return v.f
				case *pyClassM:
					return &Bound{x.Class, v.f}
				}
				return v
			}
			if a == "__class__" {
				return x.Class
			}
		}
	case *Class:
		if v, ok := x.find(a); ok {
			switch v := v.(type) {
			case *pyStatic:
				return v.f
			case *pyClassM:
				return &Bound{x, v.f}
			}
			return v
		}
		if a == "__name__" {
			return x.Name
		}
		if x.Enum != nil && a == "_value2member_map_" {
			f.unsup(n, "enum internals")
		}
	case EnumVal:
		switch a {
		case "value", "_value_":
			return x.V
		case "name":
			return "?"
		}
	case pyModule:
		return pyImported{string(x), a}
	case pyBuiltin, pyImported, *View, string, *Str, *List, int64, Int, bool, *sym.Term, float64, Flt:
		return &pyMethod{o, a}
	}
	m.raise("AttributeError", "%s (line %d)", a, n.Line)
	return nil
}

type pyMethod struct {
	o    Value
	name string
}

func (f *pyFrame) setattr(n *Node, o Value, a string, v Value) {
	m := f.m
	x, ok := o.(*Obj)
	if !ok {
		f.unsup(n, "attribute store")
	}
	if x.Class != nil {
		if c, ok := x.Class.find(a); ok {
			if p, is := c.(*pyProp); is {
				if p.set == nil {
					m.raise("AttributeError", "property %s has no setter", a)
				}
				m.CallPy(p.set, []Value{x, v}, nil)
				return
			}
		}
	}
	p := x.F[a]
	if p == nil {
		p = new(Value)
		x.F[a] = p
		m.onUndo(func() { delete(x.F, a) })
	}
	m.Set(p, v)
}

func (f *pyFrame) iter(n *Node, v Value) func(i int) (Value, bool) {
	switch x := v.(type) {
	case *List:
		return func(i int) (Value, bool) {
			if i >= len(x.E) {
				return nil, false
			}
			return x.E[i], true
		}
	case pyRange:
		return func(i int) (Value, bool) {
			var c Value
			v := f.m.Add(x.from, f.m.Mul(x.step, int64(i)))
			if x.up {
				c = f.m.Cmp("<", v, x.to)
			} else {
				c = f.m.Cmp("<", x.to, v)
			}
			if !f.m.Bool(c) {
				return nil, false
			}
			return v, true
		}
	case *View:
		return func(i int) (Value, bool) {
			if i >= x.N {
				return nil, false
			}
			return f.m.FromU(x.Buf.B[x.Off+i].(*sym.Term)), true
		}
	case string, *Str:
		s, _ := f.m.str(v)
		return func(i int) (Value, bool) {
			if i >= len(s.U) {
				return nil, false
			}
			return f.m.mkStr(s.U[i : i+1]), true
		}
	}
	f.m.raise("TypeError", "not iterable: %T (line %d)", v, n.Line)
	return nil
}

type pyRange struct {
	from, to, step Value
	up             bool
}

// at resolves an index into [0,n); negative indices count from the end.
func (f *pyFrame) at(n *Node, k Value, l int) int {
	m := f.m
	k = f.num(k)
	if !isInt(k) {
		m.raise("TypeError", "index is not an integer (line %d)", n.Line)
	}
	if c, ok := k.(int64); ok {
		if c < 0 {
			c += int64(l)
		}
		if c < 0 || c >= int64(l) {
			m.raise("IndexError", "index %d of %d (line %d)", c, l, n.Line)
		}
		return int(c)
	}
	in := m.P.And(m.boolT(m.Cmp("<=", int64(-l), k)), m.boolT(m.Cmp("<", k, int64(l))))
	if !m.Bool(m.mkBool(in)) {
		m.raise("IndexError", "index out of range (line %d)", n.Line)
	}
	return f.at(n, m.Conc(k), l)
}

func (f *pyFrame) index(n *Node, o, k Value) Value {
	switch x := o.(type) {
	case *View:
		return f.m.FromU(x.Buf.B[x.Off+f.at(n, k, x.N)].(*sym.Term))
	case *List:
		return x.E[f.at(n, k, len(x.E))]
	case string, *Str:
		s, _ := f.m.str(o)
		i := f.at(n, k, len(s.U))
		return f.m.mkStr(s.U[i : i+1])
	case *Class:
		if x.Enum != nil {
			if s, ok := k.(string); ok {
				for _, e := range x.Enum {
					if e.Name == s {
						return EnumVal{x, e.V}
					}
				}
				f.m.raise("KeyError", "%s", s)
			}
		}
	}
	f.m.raise("TypeError", "not subscriptable: %T (line %d)", o, n.Line)
	return nil
}

// byteT turns an integer into a byte, raising ValueError outside 0..255.
func (f *pyFrame) byteT(n *Node, v Value) *sym.Term {
	m := f.m
	v = f.num(v)
	if !isInt(v) {
		m.raise("TypeError", "byte value is %T (line %d)", v, n.Line)
	}
	t := m.term(v)
	if t.W <= 9 && m.NonNeg(v) {
		return m.Wide(v, 8)
	}
	in := m.P.And(m.boolT(m.Cmp("<=", int64(0), v)), m.boolT(m.Cmp("<=", v, int64(255))))
	if !m.Bool(m.mkBool(in)) {
		m.raise("ValueError", "byte out of range (line %d)", n.Line)
	}
	return m.Wide(v, 8)
}

func (f *pyFrame) setindex(n *Node, o, k, v Value) {
	switch x := o.(type) {
	case *View:
		if x.Kind == "bytes" || x.Buf.ReadOnly {
			f.m.raise("TypeError", "read-only buffer (line %d)", n.Line)
		}
		i := f.at(n, k, x.N)
		f.m.Set(&x.Buf.B[x.Off+i], f.byteT(n, v))
		return
	case *List:
		if !x.Tuple {
			f.m.Set(&x.E[f.at(n, k, len(x.E))], v)
			return
		}
	}
	f.m.raise("TypeError", "item assignment on %T (line %d)", o, n.Line)
}

// bounds resolves slice bounds as Python does (clamped).
func (f *pyFrame) bounds(n, s *Node, l int) (int, int) {
	m := f.m
	if s.N("step") != nil {
		if c, ok := f.eval(s.N("step")).(int64); !ok || c != 1 {
			f.unsup(n, "slice step")
		}
	}
	get := func(x *Node, def int) int {
		if x == nil {
			return def
		}
		v := f.num(f.eval(x))
		if v == nil {
			return def
		}
		if !isInt(v) {
			m.raise("TypeError", "slice bound (line %d)", n.Line)
		}
		if _, ok := v.(int64); !ok {
			if m.Bool(m.Cmp("<=", int64(l), v)) {
				return l
			}
			if m.Bool(m.Cmp("<=", v, int64(-l))) {
				return 0
			}
			v = m.Conc(v)
		}
		c := v.(int64)
		if c < 0 {
			c += int64(l)
		}
		return int(max(0, min(c, int64(l))))
	}
	lo := get(s.N("lower"), 0)
	hi := get(s.N("upper"), l)
	return lo, max(lo, hi)
}

func (f *pyFrame) slice(n *Node, o Value, s *Node) Value {
	switch x := o.(type) {
	case *View:
		lo, hi := f.bounds(n, s, x.N)
		if x.Kind == "memoryview" {
			return &View{Buf: x.Buf, Off: x.Off + lo, N: hi - lo, Kind: x.Kind}
		}
		return f.copyView(&View{Buf: x.Buf, Off: x.Off + lo, N: hi - lo}, x.Kind)
	case *List:
		lo, hi := f.bounds(n, s, len(x.E))
		return &List{E: append([]Value{}, x.E[lo:hi]...), Tuple: x.Tuple}
	case string, *Str:
		st, _ := f.m.str(o)
		lo, hi := f.bounds(n, s, len(st.U))
		return &Str{U: st.U[lo:hi], Opaque: st.Opaque}
	}
	f.m.raise("TypeError", "not subscriptable: %T (line %d)", o, n.Line)
	return nil
}

func (f *pyFrame) copyView(x *View, kind string) *View {
	return &View{Buf: &Buf{B: append([]Value{}, x.Buf.B[x.Off:x.Off+x.N]...), ReadOnly: kind == "bytes"}, N: x.N, Kind: kind}
}

// bytesOf reads a bytes-like value (also lists of integers for bytes()).
func (f *pyFrame) bytesOf(n *Node, v Value) []Value {
	switch x := v.(type) {
	case *View:
		return append([]Value{}, x.Buf.B[x.Off:x.Off+x.N]...)
	case *List:
		var r []Value
		for _, e := range x.E {
			r = append(r, f.byteT(n, e))
		}
		return r
	}
	f.m.raise("TypeError", "a bytes-like object is required, not %T (line %d)", v, n.Line)
	return nil
}

func (f *pyFrame) setslice(n *Node, o Value, s *Node, v Value) {
	x, ok := o.(*View)
	if !ok {
		f.unsup(n, "slice assignment")
	}
	if x.Kind == "bytes" || x.Buf.ReadOnly {
		f.m.raise("TypeError", "read-only buffer (line %d)", n.Line)
	}
	if _, isL := v.(*List); isL && x.Kind == "memoryview" {
		f.m.raise("TypeError", "a bytes-like object is required (line %d)", n.Line)
	}
	b := f.bytesOf(n, v)
	lo, hi := f.bounds(n, s, x.N)
	if hi-lo != len(b) {
		if x.Kind == "memoryview" {
			f.m.raise("ValueError", "memoryview assignment: lvalue and rvalue have different structures (line %d)", n.Line)
		}
		if x.Off != 0 || x.N != len(x.Buf.B) || f.m.depth > 0 {
			f.unsup(n, "resizing slice assignment")
		}
		nb := append(append(append([]Value{}, x.Buf.B[:lo]...), b...), x.Buf.B[hi:]...)
		x.Buf.B, x.N = nb, len(nb)
		return
	}
	for i := range b {
		f.m.Set(&x.Buf.B[x.Off+lo+i], b[i])
	}
}

// CallPy calls a function.
func (m *M) CallPy(fn *Func, args []Value, kw map[string]Value) Value {
	m.Called[fn.Name]++
	if fn.Rest != "" {
		sym.Unsupported("python: variadic function %s", fn.Name)
	}
	f := &pyFrame{m: m, mod: fn.Py, vars: make(map[string]*Value, len(fn.Params)+len(fn.Locals))}
	if len(args) > len(fn.Params) {
		m.raise("TypeError", "%s takes %d arguments, not %d", fn.Name, len(fn.Params), len(args))
	}
	used := 0
	for i, p := range fn.Params {
		c := new(Value)
		f.vars[p] = c
		if i < len(args) {
			*c = args[i]
			continue
		}
		if v, ok := kw[p]; ok {
			*c = v
			used++
			continue
		}
		d := i - (len(fn.Params) - len(fn.DefV))
		if d < 0 {
			m.raise("TypeError", "%s: missing argument %s", fn.Name, p)
		}
		*c = fn.DefV[d]
	}
	if used != len(kw) {
		m.raise("TypeError", "%s: unexpected keyword argument", fn.Name)
	}
	for _, l := range fn.Locals {
		c := new(Value)
		*c = unbound{}
		f.vars[l] = c
	}
	if f.block(fn.Body) == cReturn {
		return f.ret
	}
	return nil
}

// Instantiate constructs an object.
func (m *M) Instantiate(c *Class, args []Value, kw map[string]Value) Value {
	o := &Obj{Class: c, F: map[string]*Value{}}
	if in, ok := c.find("__init__"); ok {
		m.CallPy(in.(*Func), append([]Value{o}, args...), kw)
	} else if len(args)+len(kw) > 0 {
		m.raise("TypeError", "%s() takes no arguments", c.Name)
	}
	return o
}

// EnumOf is the member with the given value (ValueError if there is none).
func (m *M) EnumOf(c *Class, v Value) Value {
	if e, ok := v.(EnumVal); ok && e.C == c {
		return e
	}
	if isBool(v) {
		v = m.mk(m.term(v))
	}
	if !isInt(v) {
		m.raise("ValueError", "not a valid %s", c.Name)
	}
	r := m.P.False()
	for _, e := range c.Enum {
		r = m.P.Or(r, m.boolT(m.Cmp("==", v, e.V)))
	}
	if !m.Bool(m.mkBool(r)) {
		m.raise("ValueError", "not a valid %s", c.Name)
	}
	return EnumVal{c, v}
}

func (f *pyFrame) call(n *Node) Value {
	m := f.m
	fn := f.eval(n.N("func"))
	var args []Value
	for _, a := range n.L("args") {
		if a.T == "Starred" {
			it := f.iter(a, f.eval(a.N("value")))
			for i := 0; ; i++ {
				v, ok := it(i)
				if !ok {
					break
				}
				args = append(args, v)
			}
			continue
		}
		if fn == pyBuiltin("int") && len(n.L("args")) == 1 && a.T == "BinOp" && a.S("op") == "Div" {
			// the quotient of integers that doubles hold, rounded towards zero:
			// the division of doubles never rounds up to an integer
			x, y := f.eval(a.N("left")), f.eval(a.N("right"))
			if k, ok := y.(int64); ok && k > 0 && k < 1<<53 && isInt(x) && m.Bool(m.Cmp("<=", x, int64(1<<53))) && m.Bool(m.Cmp("<=", int64(-1<<53), x)) {
				q, _ := m.QuoRem(x, y)
				return q
			}
			args = append(args, f.binop(a, "Div", x, y))
			continue
		}
		args = append(args, f.eval(a))
	}
	var kw map[string]Value
	for _, k := range n.L("keywords") {
		if kw == nil {
			kw = map[string]Value{}
		}
		kw[k.S("arg")] = f.eval(k.N("value"))
	}
	switch x := fn.(type) {
	case *Func:
		return m.CallPy(x, args, kw)
	case *Bound:
		return m.CallPy(x.Fn.(*Func), append([]Value{x.This}, args...), kw)
	case *Class:
		if x.Enum != nil {
			return m.EnumOf(x, args[0])
		}
		return m.Instantiate(x, args, kw)
	case pyBuiltin:
		return f.builtin(n, string(x), args, kw)
	case pyImported:
		return f.library(n, x.mod+"."+x.name, args, kw)
	case *pyMethod:
		return f.method(n, x.o, x.name, args, kw)
	}
	m.raise("TypeError", "not callable: %T (line %d)", fn, n.Line)
	return nil
}

func (f *pyFrame) builtin(n *Node, name string, a []Value, kw map[string]Value) Value {
	m := f.m
	arg := func(i int) Value {
		if i < len(a) {
			return a[i]
		}
		return nil
	}
	isUTF8 := func(i int) bool {
		if i >= len(a) {
			return false
		}
		s, _ := a[i].(string)
		s = strings.ToLower(strings.ReplaceAll(s, "-", ""))
		return s == "utf8"
	}
	switch name {
	case "property":
		p := &pyProp{}
		fn := func(i int, k string) *Func {
			v := arg(i)
			if w, ok := kw[k]; ok {
				v = w
			}
			g, _ := v.(*Func)
			return g
		}
		p.get, p.set = fn(0, "fget"), fn(1, "fset")
		return p
	case "len":
		switch x := arg(0).(type) {
		case *View:
			return int64(x.N)
		case *List:
			return int64(len(x.E))
		case string, *Str:
			s, _ := m.str(x)
			if s.Opaque {
				sym.Unsupported("length of text of unknown contents")
			}
			return int64(len(s.U))
		case pyRange:
			f.unsup(n, "len of range")
		}
		m.raise("TypeError", "object of type %T has no len() (line %d)", arg(0), n.Line)
	case "range":
		r := pyRange{from: int64(0), step: int64(1), up: true}
		for i := range a {
			a[i] = f.num(a[i])
			if !isInt(a[i]) {
				m.raise("TypeError", "range argument (line %d)", n.Line)
			}
		}
		switch len(a) {
		case 1:
			r.to = a[0]
		case 2:
			r.from, r.to = a[0], a[1]
		case 3:
			r.from, r.to, r.step = a[0], a[1], m.Conc(a[2])
			r.up = r.step.(int64) > 0
		}
		return r
	case "bytes", "bytearray":
		if len(a) == 0 {
			return &View{Buf: &Buf{ReadOnly: name == "bytes"}, Kind: name}
		}
		if isStr(a[0]) {
			if !isUTF8(1) {
				m.raise("TypeError", "string argument without an encoding (line %d)", n.Line)
			}
			return f.utf8(n, a[0], name)
		}
		if v := f.num(a[0]); isInt(v) {
			if m.Bool(m.Cmp("<", v, int64(0))) {
				m.raise("ValueError", "negative count (line %d)", n.Line)
			}
			if m.Bool(m.Cmp("<", int64(1<<16), v)) {
				sym.Unsupported("allocation of more than 64 KiB")
			}
			k := int(m.Conc(v))
			b := &Buf{ReadOnly: name == "bytes"}
			for i := 0; i < k; i++ {
				b.B = append(b.B, m.P.BV(8, 0))
			}
			return &View{Buf: b, N: k, Kind: name}
		}
		b := f.bytesOf(n, a[0])
		return &View{Buf: &Buf{B: b, ReadOnly: name == "bytes"}, N: len(b), Kind: name}
	case "memoryview":
		if x, ok := arg(0).(*View); ok {
			return &View{Buf: x.Buf, Off: x.Off, N: x.N, Kind: "memoryview"}
		}
		m.raise("TypeError", "memoryview: a bytes-like object is required (line %d)", n.Line)
	case "str":
		if x, ok := arg(0).(*View); ok {
			if !isUTF8(1) && kw["encoding"] == nil {
				f.unsup(n, "str() of bytes")
			}
			_, lax := kw["errors"]
			return f.fromUTF8(n, x, lax || len(a) > 2)
		}
		if isStr(arg(0)) {
			return arg(0)
		}
		return "?"
	case "isinstance":
		ts := []Value{arg(1)}
		if l, ok := arg(1).(*List); ok {
			ts = l.E
		}
		for _, t := range ts {
			switch t := t.(type) {
			case pyBuiltin:
				v := arg(0)
				var r bool
				switch string(t) {
				case "memoryview", "bytes", "bytearray":
					x, ok := v.(*View)
					r = ok && x.Kind == string(t)
				case "str":
					r = isStr(v)
				case "int":
					r = isInt(v) || isBool(v)
				case "bool":
					r = isBool(v)
				case "float":
					r = isFlt(v)
				case "list", "tuple":
					x, ok := v.(*List)
					r = ok && x.Tuple == (string(t) == "tuple")
				case "object":
					r = true
				default:
					f.unsup(n, "isinstance")
				}
				if r {
					return true
				}
			case *Class:
				switch x := arg(0).(type) {
				case *Obj:
					if x.Class == t {
						return true
					}
				case EnumVal:
					if x.C == t {
						return true
					}
				}
			default:
				f.unsup(n, "isinstance")
			}
		}
		return false
	case "bool":
		if len(a) == 0 {
			return false
		}
		return f.truth(a[0])
	case "int":
		if len(a) == 0 {
			return int64(0)
		}
		v := f.num(a[0])
		if isInt(v) {
			return v
		}
		if x, ok := v.(float64); ok {
			b, _ := new(big.Float).SetFloat64(x).Int(nil)
			return m.bigLit(b)
		}
		if x, ok := v.(Flt); ok {
			return m.f2i(x.T)
		}
		if e, ok := v.(EnumVal); ok {
			m.raise("TypeError", "int() of an enum member %s", e.C.Name)
		}
		f.unsup(n, "int()")
	case "float":
		if len(a) == 0 {
			return 0.0
		}
		v := f.num(a[0])
		if isInt(v) {
			return m.IntToFlt(v)
		}
		if isFlt(v) {
			return v
		}
		f.unsup(n, "float()")
	case "abs":
		v := f.num(a[0])
		if isInt(v) {
			r, _ := m.Ite(m.boolT(m.Cmp("<", v, int64(0))), m.Neg(v), v)
			return r
		}
		f.unsup(n, "abs()")
	case "max", "min":
		vs := a
		if len(a) == 1 {
			vs = a[0].(*List).E
		}
		r := f.num(vs[0])
		for _, v := range vs[1:] {
			v = f.num(v)
			if !isInt(r) || !isInt(v) {
				f.unsup(n, name)
			}
			c := m.Cmp("<", r, v)
			if name == "min" {
				c = m.Cmp("<", v, r)
			}
			r, _ = m.Ite(m.boolT(c), v, r)
		}
		return r
	case "sum":
		it := f.iter(n, a[0])
		r := Value(int64(0))
		for i := 0; ; i++ {
			v, ok := it(i)
			if !ok {
				return r
			}
			r = f.binop(n, "Add", r, v)
		}
	case "any", "all":
		it := f.iter(n, a[0])
		r := m.P.Bool(name == "all")
		for i := 0; ; i++ {
			v, ok := it(i)
			if !ok {
				return m.mkBool(r)
			}
			t := m.boolT(f.truth(v))
			if name == "all" {
				r = m.P.And(r, t)
			} else {
				r = m.P.Or(r, t)
			}
		}
	case "list", "tuple", "enumerate", "zip", "reversed":
		l := &List{Tuple: name == "tuple"}
		var its []func(int) (Value, bool)
		for _, x := range a {
			its = append(its, f.iter(n, x))
		}
		for i := 0; len(its) > 0; i++ {
			var row []Value
			for _, it := range its {
				v, ok := it(i)
				if !ok {
					row = nil
					break
				}
				row = append(row, v)
			}
			if row == nil {
				break
			}
			switch name {
			case "enumerate":
				l.E = append(l.E, &List{Tuple: true, E: []Value{int64(i), row[0]}})
			case "zip":
				l.E = append(l.E, &List{Tuple: true, E: row})
			default:
				l.E = append(l.E, row[0])
			}
		}
		if name == "reversed" {
			for i, j := 0, len(l.E)-1; i < j; i, j = i+1, j-1 {
				l.E[i], l.E[j] = l.E[j], l.E[i]
			}
		}
		return l
	case "type":
		if o, ok := a[0].(*Obj); ok {
			return o.Class
		}
	case "print":
		return nil
	}
	f.unsup(n, "builtin "+name)
	return nil
}

// f2i truncates a double to an integer; exact only within 64 bits.
func (m *M) f2i(t *sym.Term) Value {
	return m.mk(m.P.UF("f64.to.s64", 64, t))
}

// utf8 encodes text.
func (f *pyFrame) utf8(n *Node, v Value, kind string) Value {
	m := f.m
	s, _ := m.str(v)
	if s.Opaque {
		sym.Unsupported("encoding of text of unknown contents")
	}
	b := &Buf{ReadOnly: kind == "bytes"}
	for _, u := range s.U {
		p := m.P
		part := func(hi, lo int, or uint64) Value {
			return p.Or(p.Zext(p.Extract(u, hi, lo), 8), p.BV(8, or))
		}
		switch {
		case p.Branch(p.Ult(u, p.BV(16, 0x80))):
			b.B = append(b.B, p.Extract(u, 7, 0))
		case p.Branch(p.Ult(u, p.BV(16, 0x800))):
			b.B = append(b.B, part(10, 6, 0xc0), part(5, 0, 0x80))
		default:
			if !p.Branch(p.Or(p.Ult(u, p.BV(16, 0xd800)), p.Uge(u, p.BV(16, 0xe000)))) {
				sym.Unsupported("characters outside the basic plane")
			}
			b.B = append(b.B, part(15, 12, 0xe0), part(11, 6, 0x80), part(5, 0, 0x80))
		}
	}
	return &View{Buf: b, N: len(b.B), Kind: kind}
}

// fromUTF8 decodes bytes: exact for ASCII, otherwise raises exactly when the
// bytes are not valid UTF-8 and yields text of unknown contents.
func (f *pyFrame) fromUTF8(n *Node, x *View, lax bool) Value {
	m := f.m
	ascii := m.P.True()
	var bs []*sym.Term
	for i := 0; i < x.N; i++ {
		t := x.Buf.B[x.Off+i].(*sym.Term)
		bs = append(bs, t)
		ascii = m.P.And(ascii, m.P.Ult(t, m.P.BV(8, 0x80)))
	}
	if m.P.Branch(ascii) {
		u := make([]*sym.Term, len(bs))
		for i, t := range bs {
			u[i] = m.P.Zext(t, 16)
		}
		return m.mkStr(u)
	}
	if !lax && !m.P.Branch(ValidUTF8(m.P.Ctx, bs)) {
		m.raise("UnicodeDecodeError", "invalid UTF-8 (line %d)", n.Line)
	}
	if !lax && len(bs) <= 6 {
		var u []*sym.Term
		for i := 0; i < len(bs); {
			c, k := UTF16At(m.P, bs, i)
			if k == 4 {
				return &Str{Opaque: true} // outside the basic plane
			}
			u = append(u, c...)
			i += k
		}
		return m.mkStr(u)
	}
	return &Str{Opaque: true}
}

// UTF16At is the character that starts at byte i of well-formed UTF-8, as
// UTF-16 units, and its length in bytes.
func UTF16At(p *sym.Path, b []*sym.Term, i int) ([]*sym.Term, int) {
	low := func(k int) *sym.Term { return p.Extract(b[i+k], 5, 0) }
	at := func(x uint64) *sym.Term { return p.BV(8, x) }
	switch {
	case p.Branch(p.Ult(b[i], at(0x80))):
		return []*sym.Term{p.Zext(b[i], 16)}, 1
	case i+1 < len(b) && p.Branch(p.Ult(b[i], at(0xe0))):
		return []*sym.Term{p.Zext(p.Concat(p.Extract(b[i], 4, 0), low(1)), 16)}, 2
	case i+2 < len(b) && p.Branch(p.Ult(b[i], at(0xf0))):
		return []*sym.Term{p.Concat(p.Extract(b[i], 3, 0), p.Concat(low(1), low(2)))}, 3
	case i+3 < len(b):
		cp := p.Concat(p.Extract(b[i], 2, 0), p.Concat(low(1), p.Concat(low(2), low(3))))
		cp = p.Sub(cp, p.BV(21, 0x10000))
		return []*sym.Term{p.Concat(p.BV(6, 0x36), p.Extract(cp, 19, 10)), p.Concat(p.BV(6, 0x37), p.Extract(cp, 9, 0))}, 4
	}
	sym.Unsupported("text that is not well-formed")
	return nil, 0
}

// ValidUTF8 states well-formedness (RFC 3629) of a byte string.
func ValidUTF8(c *sym.Ctx, b []*sym.Term) *sym.Term {
	n := len(b)
	ok := make([]*sym.Term, n+1) // suffix i.. is well-formed
	ok[n] = c.True()
	in := func(t *sym.Term, lo, hi uint64) *sym.Term {
		return c.And(c.Uge(t, c.BV(8, lo)), c.Ule(t, c.BV(8, hi)))
	}
	for i := n - 1; i >= 0; i-- {
		r := c.And(in(b[i], 0, 0x7f), ok[i+1])
		if i+1 < n {
			r = c.Or(r, c.AndN(in(b[i], 0xc2, 0xdf), in(b[i+1], 0x80, 0xbf), ok[i+2]))
		}
		if i+2 < n {
			e := c.OrN(c.And(in(b[i], 0xe0, 0xe0), in(b[i+1], 0xa0, 0xbf)), c.And(c.Or(in(b[i], 0xe1, 0xec), in(b[i], 0xee, 0xef)), in(b[i+1], 0x80, 0xbf)), c.And(in(b[i], 0xed, 0xed), in(b[i+1], 0x80, 0x9f)))
			r = c.Or(r, c.AndN(e, in(b[i+2], 0x80, 0xbf), ok[i+3]))
		}
		if i+3 < n {
			e := c.OrN(c.And(in(b[i], 0xf0, 0xf0), in(b[i+1], 0x90, 0xbf)), c.And(in(b[i], 0xf1, 0xf3), in(b[i+1], 0x80, 0xbf)), c.And(in(b[i], 0xf4, 0xf4), in(b[i+1], 0x80, 0x8f)))
			r = c.Or(r, c.AndN(e, in(b[i+2], 0x80, 0xbf), in(b[i+3], 0x80, 0xbf), ok[i+4]))
		}
		ok[i] = r
	}
	return ok[0]
}

// method calls on built-in values.
func (f *pyFrame) method(n *Node, o Value, name string, a []Value, kw map[string]Value) Value {
	m := f.m
	switch x := o.(type) {
	case *View:
		switch name {
		case "tobytes":
			return f.copyView(x, "bytes")
		case "copy":
			return f.copyView(x, x.Kind)
		case "decode":
			_, lax := kw["errors"]
			return f.fromUTF8(n, x, lax || len(a) > 1)
		case "append":
			if x.Kind == "bytearray" && m.depth == 0 && x.Off == 0 && x.N == len(x.Buf.B) {
				x.Buf.B = append(x.Buf.B, f.byteT(n, a[0]))
				x.N++
				return nil
			}
		case "extend":
			if x.Kind == "bytearray" && m.depth == 0 && x.Off == 0 && x.N == len(x.Buf.B) {
				x.Buf.B = append(x.Buf.B, f.bytesOf(n, a[0])...)
				x.N = len(x.Buf.B)
				return nil
			}
		case "cast", "toreadonly", "release":
			return o
		case "find", "index":
			if c := f.num(a[0]); isInt(c) {
				t := f.byteT(n, c)
				lo := 0
				if len(a) > 1 {
					lo = int(max(0, m.Conc(a[1])))
				}
				for i := lo; i < x.N; i++ {
					if m.P.Branch(m.P.Eq(x.Buf.B[x.Off+i].(*sym.Term), t)) {
						return int64(i)
					}
				}
				if name == "find" {
					return int64(-1)
				}
				m.raise("ValueError", "subsection not found")
			}
		}
	case string, *Str:
		if name == "encode" {
			return f.utf8(n, o, "bytes")
		}
	case *List:
		switch name {
		case "append":
			if m.depth == 0 && !x.Tuple {
				x.E = append(x.E, a[0])
				return nil
			}
		case "copy":
			return &List{E: append([]Value{}, x.E...)}
		}
	case int64, Int, bool, *sym.Term:
		switch name {
		case "bit_length":
			v := f.num(o)
			if c, ok := v.(int64); ok {
				return int64(minW(max(c, -c)) - 1)
			}
		case "to_bytes":
			k := int(m.Conc(a[0]))
			order := kw["byteorder"]
			if len(a) > 1 {
				order = a[1]
			}
			signed := kw["signed"] == true
			v := f.num(o)
			lo, hi := Value(int64(0)), m.Sub(m.Shl(int64(1), 8*k), int64(1))
			if signed {
				hi = m.Sub(m.Shl(int64(1), 8*k-1), int64(1))
				lo = m.Neg(m.Shl(int64(1), 8*k-1))
			}
			if !m.Bool(m.mkBool(m.P.And(m.boolT(m.Cmp("<=", lo, v)), m.boolT(m.Cmp("<=", v, hi))))) {
				m.raise("OverflowError", "to_bytes (line %d)", n.Line)
			}
			t := m.Wide(v, max(8*k, 1))
			r := &View{Buf: &Buf{ReadOnly: true}, N: k, Kind: "bytes"}
			for i := 0; i < k; i++ {
				j := i
				if order == "big" {
					j = k - 1 - i
				}
				r.Buf.B = append(r.Buf.B, m.P.Extract(t, 8*j+7, 8*j))
			}
			return r
		}
	case pyBuiltin:
		if x == "int" && name == "from_bytes" {
			b := f.bytesOf(n, a[0])
			order := kw["byteorder"]
			if len(a) > 1 {
				order = a[1]
			}
			if len(b) == 0 {
				return int64(0)
			}
			t := make([]*sym.Term, len(b))
			for i := range b {
				j := i
				if order == "big" {
					j = len(b) - 1 - i
				}
				t[i] = b[j].(*sym.Term)
			}
			if kw["signed"] == true {
				return m.FromS(m.P.BytesLE(t))
			}
			return m.FromU(m.P.BytesLE(t))
		}
	case pyImported:
		if x.mod == "struct" {
			return f.library(n, "struct."+x.name+"."+name, a, kw)
		}
	}
	f.unsup(n, fmt.Sprintf("method %s of %T", name, o))
	return nil
}

// library: the struct module.
func (f *pyFrame) library(n *Node, name string, a []Value, kw map[string]Value) Value {
	m := f.m
	switch name {
	case "struct.pack", "struct.unpack", "struct.unpack_from", "struct.pack_into", "struct.calcsize":
	default:
		f.unsup(n, "library function "+name)
	}
	fm, ok := a[0].(string)
	if !ok {
		f.unsup(n, "struct format")
	}
	big := strings.HasPrefix(fm, ">") || strings.HasPrefix(fm, "!")
	codes := strings.TrimLeft(fm, "<>=!@")
	for _, c := range codes {
		if !strings.ContainsRune("bBhHiIlLqQfd?x", c) {
			f.unsup(n, "struct format "+fm)
		}
	}
	size := func(c rune) int {
		switch c {
		case 'h', 'H':
			return 2
		case 'i', 'I', 'f', 'l', 'L':
			return 4
		case 'q', 'Q', 'd':
			return 8
		}
		return 1
	}
	total := 0
	for _, c := range codes {
		total += size(c)
	}
	order := func(b []Value) []Value {
		if big {
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
		}
		return b
	}
	switch name {
	case "struct.calcsize":
		return int64(total)
	case "struct.pack", "struct.pack_into":
		args := a[1:]
		if name == "struct.pack_into" {
			args = a[3:]
		}
		var out []Value
		k := 0
		for _, c := range codes {
			if c == 'x' {
				out = append(out, m.P.BV(8, 0))
				continue
			}
			if k >= len(args) {
				m.raise("struct.error", "line %d", n.Line)
			}
			v := f.num(args[k])
			k++
			var t *sym.Term
			switch c {
			case 'f', 'd':
				if isInt(v) {
					v = m.IntToFlt(v)
				}
				if !isFlt(v) {
					m.raise("struct.error", "required argument is not a float (line %d)", n.Line)
				}
				t = m.fltT(v)
				if c == 'f' {
					r := m.P.UF("f64.to.f32", 32, t)
					if t.Op == sym.OUF && t.Name == "f32.to.f64" {
						r = t.A[0]
					} else {
						fin := m.P.Ult(m.P.Extract(t, 62, 52), m.P.BV(11, 0x7ff))
						inf := m.P.Eq(m.P.Extract(r, 30, 23), m.P.BV(8, 0xff))
						if m.P.Branch(m.P.And(fin, inf)) {
							m.raise("OverflowError", "float too large to pack (line %d)", n.Line)
						}
					}
					t = r
				}
			case '?':
				t = m.P.BoolToBV(m.boolT(f.truth(v)), 8)
			default:
				if !isInt(v) {
					m.raise("struct.error", "required argument is not an integer (line %d)", n.Line)
				}
				w := 8 * size(c)
				lo, hi := Value(int64(0)), m.Sub(m.Shl(int64(1), w), int64(1))
				if c >= 'a' {
					hi = m.Sub(m.Shl(int64(1), w-1), int64(1))
					lo = m.Neg(m.Shl(int64(1), w-1))
				}
				if !m.Bool(m.mkBool(m.P.And(m.boolT(m.Cmp("<=", lo, v)), m.boolT(m.Cmp("<=", v, hi))))) {
					m.raise("struct.error", "argument out of range (line %d)", n.Line)
				}
				t = m.Wide(v, w)
			}
			var b []Value
			for i := 0; i < t.W/8; i++ {
				b = append(b, m.P.Extract(t, 8*i+7, 8*i))
			}
			out = append(out, order(b)...)
		}
		if k != len(args) {
			m.raise("struct.error", "argument count (line %d)", n.Line)
		}
		if name == "struct.pack_into" {
			x := a[1].(*View)
			off := int(m.Conc(f.num(a[2])))
			if off < 0 || off+len(out) > x.N {
				m.raise("struct.error", "pack_into beyond the buffer (line %d)", n.Line)
			}
			for i := range out {
				m.Set(&x.Buf.B[x.Off+off+i], out[i])
			}
			return nil
		}
		return &View{Buf: &Buf{B: out, ReadOnly: true}, N: len(out), Kind: "bytes"}
	}
	b := f.bytesOf(n, a[1])
	if name == "struct.unpack_from" {
		off := 0
		if len(a) > 2 {
			off = int(m.Conc(f.num(a[2])))
		}
		if off < 0 || off+total > len(b) {
			m.raise("struct.error", "unpack_from beyond the buffer (line %d)", n.Line)
		}
		b = b[off : off+total]
	}
	if len(b) != total {
		m.raise("struct.error", "unpack requires a buffer of %d bytes (line %d)", total, n.Line)
	}
	r := &List{Tuple: true}
	for _, c := range codes {
		k := size(c)
		x := order(append([]Value{}, b[:k]...))
		b = b[k:]
		if c == 'x' {
			continue
		}
		ts := make([]*sym.Term, k)
		for i := range x {
			ts[i] = x[i].(*sym.Term)
		}
		t := m.P.BytesLE(ts)
		switch {
		case c == 'f':
			r.E = append(r.E, m.mkFlt(m.P.UF("f32.to.f64", 64, t)))
		case c == 'd':
			r.E = append(r.E, m.mkFlt(t))
		case c == '?':
			r.E = append(r.E, m.mkBool(m.P.NonZero(t)))
		case c >= 'a':
			r.E = append(r.E, m.FromS(t))
		default:
			r.E = append(r.E, m.FromU(t))
		}
	}
	return r
}
