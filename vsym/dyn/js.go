package dyn

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"vsym/sym"
)

// Env is a JavaScript scope.
type Env struct {
	vars   map[string]*Value
	up     *Env
	shared *bool // set once the module is loaded: paths must not write it
}

// JsMod is a loaded JavaScript module.
type JsMod struct {
	Root   Value // exported namespace
	glob   *Env
	frozen bool
}

// jsScope is what the pre-pass finds out about a scope.
type jsScope struct {
	vars  []string // hoisted var names (function scopes)
	lets  []string // let, const and class names of a block
	funcs []*Node  // function declarations of a block
}

type uninit struct{}

func jsBlockScope(b []*Node) *jsScope {
	s := &jsScope{}
	for _, n := range b {
		if n == nil {
			continue
		}
		switch n.T {
		case "VariableDeclaration":
			if n.S("kind") != "var" {
				for _, d := range n.L("declarations") {
					s.lets = append(s.lets, d.N("id").S("name"))
				}
			}
		case "ClassDeclaration":
			s.lets = append(s.lets, n.N("id").S("name"))
		case "FunctionDeclaration":
			s.funcs = append(s.funcs, n)
		}
	}
	return s
}

// jsPrep annotates scopes; it returns the var names the node hoists.
func jsPrep(x any, vars map[string]bool) {
	switch x := x.(type) {
	case []*Node:
		for _, n := range x {
			jsPrep(n, vars)
		}
	case *Node:
		if x == nil {
			return
		}
		switch x.T {
		case "FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression":
			own := map[string]bool{}
			for _, v := range x.F {
				jsPrep(v, own)
			}
			s := &jsScope{}
			if b := x.N("body"); b != nil && b.T == "BlockStatement" {
				s = jsBlockScope(b.L("body"))
			}
			for v := range own {
				s.vars = append(s.vars, v)
			}
			x.aux = s
			return
		case "VariableDeclaration":
			if x.S("kind") == "var" {
				for _, d := range x.L("declarations") {
					vars[d.N("id").S("name")] = true
				}
			}
		case "BlockStatement", "Program":
			x.aux = jsBlockScope(x.L("body"))
		case "Literal":
			x.lit, x.has = jsLiteral(x), true
		}
		for _, v := range x.F {
			jsPrep(v, vars)
		}
	}
}

func jsLiteral(n *Node) Value {
	if b, ok := n.F["bigint"].(string); ok && b != "" {
		v, _ := new(big.Int).SetString(b, 0)
		if v == nil {
			v, _ = new(big.Int).SetString(b, 10)
		}
		if v.IsInt64() {
			return Big{v.Int64()}
		}
		return jsBigLit{v}
	}
	switch v := n.F["value"].(type) {
	case nil:
		return nil
	case bool:
		return v
	case string:
		return v
	case json.Number:
		f, err := strconv.ParseFloat(string(v), 64)
		if err == nil {
			return jsNum(f)
		}
	}
	return jsBadLit{}
}

type jsBigLit struct{ v *big.Int }
type jsBadLit struct{}

// jsNum is a concrete number: integers in the exact range are int64.
func jsNum(f float64) Value {
	if f == math.Trunc(f) && math.Abs(f) <= 1<<53 {
		return int64(f)
	}
	return f
}

type jsFrame struct {
	m    *M
	mod  *JsMod
	env  *Env
	this Value
	ret  Value
	// strict code throws on writes to undeclared names
	strict bool
}

// jsStrict reports whether a body starts with the "use strict" directive.
func jsStrict(body []*Node) bool {
	for _, n := range body {
		switch n.S("directive") {
		case "":
			return false
		case "use strict":
			return true
		}
	}
	return false
}

// NewJs runs the module.
func NewJs(tree *Node, p *sym.Path) (*JsMod, error) {
	vars := map[string]bool{}
	jsPrep(tree, vars)
	mod := &JsMod{}
	m := NewM(p)
	glob := &Env{vars: map[string]*Value{}, shared: &mod.frozen}
	for k, v := range jsGlobals() {
		c := new(Value)
		*c = v
		glob.vars[k] = c
	}
	exports := m.jsObject()
	module := m.jsObject()
	m.jsPut(module, "exports", exports)
	cell := new(Value)
	*cell = module
	glob.vars["module"] = cell
	env := &Env{vars: map[string]*Value{}, up: glob, shared: &mod.frozen}
	for v := range vars {
		c := new(Value)
		*c = Undef{}
		env.vars[v] = c
	}
	mod.glob = glob
	f := &jsFrame{m: m, mod: mod, env: env, this: exports, strict: tree.S("sourceType") == "module" || jsStrict(tree.L("body"))}
	if r := m.Catch(func() {
		f.enter(tree.aux.(*jsScope))
		f.stmts(tree.L("body"))
	}); r != nil {
		return nil, fmt.Errorf("loading the generated JavaScript module throws %s %s", r.Class, r.Msg)
	}
	if mod.Root == nil { // CommonJS
		c, _ := module.F["exports"]
		mod.Root = *c
	}
	mod.frozen = true
	return mod, nil
}

func (f *jsFrame) unsup(n *Node, what string) {
	sym.Unsupported("javascript: %s %s (line %d)", what, n.T, n.Line)
}

// enter declares the names of a block in the current scope.
func (f *jsFrame) enter(s *jsScope) {
	for _, v := range s.lets {
		c := new(Value)
		*c = uninit{}
		f.env.vars[v] = c
	}
	for _, n := range s.funcs {
		c := new(Value)
		*c = f.function(n, n.N("id").S("name"))
		f.env.vars[n.N("id").S("name")] = c
	}
}

func (f *jsFrame) scope() *Env {
	return &Env{vars: map[string]*Value{}, up: f.env, shared: f.sharedFlag()}
}

func (f *jsFrame) sharedFlag() *bool {
	if f.mod.frozen {
		return nil
	}
	return &f.mod.frozen
}

func (f *jsFrame) function(n *Node, name string) *Obj {
	m := f.m
	fn := &Func{Name: name, Node: n, Env: f.env, Arrow: n.T == "ArrowFunctionExpression", Js: f.mod, Strict: f.strict}
	if b := n.N("body"); b != nil && b.T == "BlockStatement" && jsStrict(b.L("body")) {
		fn.Strict = true
	}
	o := m.jsObject()
	o.Fn = fn
	fn.Obj = o
	if fn.Arrow {
		fn.This = f.this
	} else {
		p := m.jsObject()
		m.jsPut(o, "prototype", p)
	}
	return o
}

func (m *M) jsObject() *Obj { return &Obj{F: map[string]*Value{}} }

func (m *M) jsPut(o *Obj, k string, v Value) {
	if c, ok := o.F[k]; ok {
		m.Set(c, v)
		return
	}
	c := new(Value)
	*c = v
	o.F[k] = c
	o.Keys = append(o.Keys, k)
	n := len(o.Keys)
	m.onUndo(func() { delete(o.F, k); o.Keys = o.Keys[:n-1] })
}

// ---- statements

func (f *jsFrame) stmts(b []*Node) ctl {
	for _, s := range b {
		if c := f.stmt(s); c != cNext {
			return c
		}
	}
	return cNext
}

func (f *jsFrame) block(n *Node) ctl {
	s := n.aux.(*jsScope)
	if len(s.lets)+len(s.funcs) == 0 {
		return f.stmts(n.L("body"))
	}
	up := f.env
	f.env = f.scope()
	defer func() { f.env = up }()
	f.enter(s)
	return f.stmts(n.L("body"))
}

func jsMergeable(n *Node) bool {
	if n == nil {
		return true
	}
	switch n.T {
	case "ExpressionStatement":
		return !jsHasUpdate(n)
	case "VariableDeclaration", "EmptyStatement":
		return true
	case "BlockStatement":
		for _, s := range n.L("body") {
			if !jsMergeable(s) {
				return false
			}
		}
		return true
	case "IfStatement":
		return jsMergeable(n.N("consequent")) && jsMergeable(n.N("alternate"))
	}
	return false
}

func jsHasUpdate(x any) bool {
	switch x := x.(type) {
	case []*Node:
		for _, n := range x {
			if jsHasUpdate(n) {
				return true
			}
		}
	case *Node:
		if x == nil {
			return false
		}
		if x.T == "UpdateExpression" || x.T == "AssignmentExpression" && (x.S("operator") == "+=" || x.S("operator") == "-=") {
			return true
		}
		for _, v := range x.F {
			if jsHasUpdate(v) {
				return true
			}
		}
	}
	return false
}

func (f *jsFrame) stmt(n *Node) ctl {
	m := f.m
	m.P.Step()
	switch n.T {
	case "ExpressionStatement":
		f.eval(n.N("expression"))
	case "VariableDeclaration":
		for _, d := range n.L("declarations") {
			if d.N("init") == nil {
				if n.S("kind") != "var" {
					f.declare(d.N("id"), Undef{})
				}
				continue
			}
			f.declare(d.N("id"), f.named(d.N("init"), d.N("id").S("name")))
		}
	case "FunctionDeclaration", "EmptyStatement":
	case "BlockStatement":
		return f.block(n)
	case "ReturnStatement":
		f.ret = Undef{}
		if a := n.N("argument"); a != nil {
			f.ret = f.eval(a)
		}
		return cReturn
	case "IfStatement":
		return f.ifStmt(n)
	case "WhileStatement":
		for {
			m.P.Step()
			if !m.Bool(f.truth(f.eval(n.N("test")))) {
				return cNext
			}
			switch f.stmt(n.N("body")) {
			case cBreak:
				return cNext
			case cReturn:
				return cReturn
			}
		}
	case "DoWhileStatement":
		for {
			m.P.Step()
			switch f.stmt(n.N("body")) {
			case cBreak:
				return cNext
			case cReturn:
				return cReturn
			}
			if !m.Bool(f.truth(f.eval(n.N("test")))) {
				return cNext
			}
		}
	case "ForStatement":
		up := f.env
		defer func() { f.env = up }()
		if i := n.N("init"); i != nil {
			if i.T == "VariableDeclaration" {
				if i.S("kind") != "var" {
					f.env = f.scope()
					f.enter(jsBlockScope([]*Node{i}))
				}
				f.stmt(i)
			} else {
				f.eval(i)
			}
		}
		for {
			m.P.Step()
			if t := n.N("test"); t != nil && !m.Bool(f.truth(f.eval(t))) {
				return cNext
			}
			switch f.stmt(n.N("body")) {
			case cBreak:
				return cNext
			case cReturn:
				return cReturn
			}
			if u := n.N("update"); u != nil {
				f.eval(u)
			}
		}
	case "ForInStatement":
		o, ok := f.eval(n.N("right")).(*Obj)
		if !ok {
			f.unsup(n, "for-in over a non-object")
		}
		up := f.env
		defer func() { f.env = up }()
		l := n.N("left")
		if l.T != "VariableDeclaration" {
			f.unsup(n, "for-in target")
		}
		id := l.L("declarations")[0].N("id")
		if l.S("kind") != "var" {
			f.env = f.scope()
			f.enter(jsBlockScope([]*Node{l}))
		}
		for _, k := range append([]string{}, o.Keys...) {
			f.declare(id, k)
			switch f.stmt(n.N("body")) {
			case cBreak:
				return cNext
			case cReturn:
				return cReturn
			}
		}
		for p := o.Proto; p != nil; p = p.Proto {
			if len(p.Keys) > 0 {
				// inherited enumerable properties (enum tables)
				for _, k := range append([]string{}, p.Keys...) {
					if _, dup := o.F[k]; dup {
						continue
					}
					f.declare(id, k)
					switch f.stmt(n.N("body")) {
					case cBreak:
						return cNext
					case cReturn:
						return cReturn
					}
				}
			}
		}
	case "BreakStatement":
		return cBreak
	case "ContinueStatement":
		return cContinue
	case "ThrowStatement":
		f.eval(n.N("argument"))
		m.raise("Error", "thrown at line %d", n.Line)
	case "ClassDeclaration":
		f.declare(n.N("id"), f.class(n))
	case "ExportDefaultDeclaration":
		f.mod.Root = f.eval(n.N("declaration"))
	case "ExportNamedDeclaration":
		if d := n.N("declaration"); d != nil {
			return f.stmt(d)
		}
	case "SwitchStatement":
		d := f.eval(n.N("discriminant"))
		hit := false
		for _, c := range n.L("cases") {
			if !hit {
				if t := c.N("test"); t != nil {
					hit = m.Bool(f.strictEq(d, f.eval(t)))
				}
			}
			if hit {
				switch f.stmts(c.L("consequent")) {
				case cBreak:
					return cNext
				case cReturn:
					return cReturn
				case cContinue:
					return cContinue
				}
			}
		}
		if !hit {
			for i, c := range n.L("cases") {
				if c.N("test") == nil {
					for _, d := range n.L("cases")[i:] {
						switch f.stmts(d.L("consequent")) {
						case cBreak:
							return cNext
						case cReturn:
							return cReturn
						case cContinue:
							return cContinue
						}
					}
				}
			}
		}
	default:
		f.unsup(n, "statement")
	}
	return cNext
}

func (f *jsFrame) ifStmt(n *Node) ctl {
	c := f.truth(f.eval(n.N("test")))
	if t, ok := c.(*sym.Term); ok {
		if jsMergeable(n.N("consequent")) && jsMergeable(n.N("alternate")) {
			arm := func(b *Node) func() (Value, bool) {
				return func() (Value, bool) { return nil, b == nil || f.stmt(b) == cNext }
			}
			if _, ok := f.m.Merge(t, arm(n.N("consequent")), arm(n.N("alternate"))); ok {
				return cNext
			}
		}
		c = f.m.Bool(t)
	}
	if c.(bool) {
		return f.stmt(n.N("consequent"))
	}
	if a := n.N("alternate"); a != nil {
		return f.stmt(a)
	}
	return cNext
}

func (f *jsFrame) lookup(n *Node, name string) (*Value, *Env) {
	for e := f.env; e != nil; e = e.up {
		if c, ok := e.vars[name]; ok {
			return c, e
		}
	}
	return nil, nil
}

// declare initialises a declared name.
func (f *jsFrame) declare(id *Node, v Value) {
	if id.T != "Identifier" {
		f.unsup(id, "destructuring")
	}
	c, e := f.lookup(id, id.S("name"))
	if c == nil {
		f.unsup(id, "undeclared "+id.S("name"))
	}
	if e.shared != nil && *e.shared {
		f.unsup(id, "write to module state")
	}
	if _, first := (*c).(uninit); first {
		*c = v
		return
	}
	f.m.Set(c, v)
}

func (f *jsFrame) named(n *Node, name string) Value {
	switch n.T {
	case "FunctionExpression", "ArrowFunctionExpression":
		return f.function(n, name)
	}
	return f.eval(n)
}

func (f *jsFrame) class(n *Node) *Obj {
	m := f.m
	name := n.N("id").S("name")
	o := m.jsObject()
	p := m.jsObject()
	m.jsPut(o, "prototype", p)
	o.Fn = &Func{Name: name, Env: f.env, Js: f.mod, Obj: o, Class: true}
	for _, d := range n.N("body").L("body") {
		if d.T != "MethodDefinition" {
			f.unsup(d, "class element")
		}
		key := d.N("key").S("name")
		if d.B("computed") || key == "" {
			f.unsup(d, "computed key")
		}
		fn := f.function(d.N("value"), name+"."+key)
		fn.Fn.Method, fn.Fn.Strict = true, true
		if d.S("kind") == "constructor" {
			fn.Fn.Name = name
			o.Fn.Node = d.N("value")
			continue
		}
		t := p
		if d.B("static") {
			t = o
		}
		switch d.S("kind") {
		case "method":
			m.jsPut(t, key, fn)
		case "get", "set":
			if t.Acc == nil {
				t.Acc = map[string]*Accessor{}
			}
			a := t.Acc[key]
			if a == nil {
				a = &Accessor{Conf: true}
				t.Acc[key] = a
			}
			if d.S("kind") == "get" {
				a.Get = fn
			} else {
				a.Set = fn
			}
		}
	}
	return o
}

// ---- calls

func (f *jsFrame) call(n *Node, fv Value, this Value, args []Value) Value {
	switch x := fv.(type) {
	case *Obj:
		if x.Fn != nil {
			if x.Fn.Class {
				f.m.raise("TypeError", "class %s called", x.Fn.Name)
			}
			return f.m.jsInvoke(x.Fn, this, args)
		}
	case Native:
		return x.Fn(f.m, this, args, nil)
	}
	f.m.raise("TypeError", "not a function (line %d)", n.Line)
	return nil
}

func (m *M) jsInvoke(fn *Func, this Value, args []Value) Value {
	if fn.Node == nil { // class without constructor
		return Undef{}
	}
	m.Called[fn.Name]++
	n := fn.Node
	f := &jsFrame{m: m, mod: fn.Js, this: this, strict: fn.Strict}
	if fn.Arrow {
		f.this = fn.This
	}
	f.env = &Env{vars: map[string]*Value{}, up: fn.Env, shared: f.sharedFlag()}
	sc := n.aux.(*jsScope)
	for _, v := range sc.vars {
		c := new(Value)
		*c = Undef{}
		f.env.vars[v] = c
	}
	for i, p := range n.L("params") {
		c := new(Value)
		*c = Undef{}
		switch p.T {
		case "Identifier":
			if i < len(args) {
				*c = args[i]
			}
			f.env.vars[p.S("name")] = c
		case "RestElement":
			l := &List{}
			if i < len(args) {
				l.E = append(l.E, args[i:]...)
			}
			*c = l
			f.env.vars[p.N("argument").S("name")] = c
		case "AssignmentPattern":
			if i < len(args) {
				*c = args[i]
			}
			if _, u := (*c).(Undef); u {
				*c = f.eval(p.N("right"))
			}
			f.env.vars[p.N("left").S("name")] = c
		default:
			f.unsup(p, "parameter")
		}
	}
	b := n.N("body")
	if b.T != "BlockStatement" {
		return f.eval(b)
	}
	f.enter(sc)
	f.ret = Undef{}
	if f.stmts(b.L("body")) == cReturn {
		return f.ret
	}
	return Undef{}
}

// JsNew constructs an instance.
func (m *M) JsNew(c *Obj, args []Value) Value {
	if c.Fn == nil {
		m.raise("TypeError", "not a constructor")
	}
	o := m.jsObject()
	if p, ok := c.F["prototype"]; ok {
		o.Proto, _ = (*p).(*Obj)
	}
	r := m.jsInvoke(c.Fn, o, args)
	if x, ok := r.(*Obj); ok {
		return x
	}
	return o
}

// ---- expressions

func (f *jsFrame) args(ns []*Node) []Value {
	var a []Value
	for _, n := range ns {
		if n.T == "SpreadElement" {
			l, ok := f.eval(n.N("argument")).(*List)
			if !ok {
				f.unsup(n, "spread")
			}
			a = append(a, l.E...)
			continue
		}
		a = append(a, f.eval(n))
	}
	return a
}

func (f *jsFrame) eval(n *Node) Value {
	m := f.m
	switch n.T {
	case "Literal":
		switch v := n.lit.(type) {
		case jsBigLit:
			return Big{m.bigLit(v.v)}
		case jsBadLit:
			f.unsup(n, "literal")
		}
		return n.lit
	case "Identifier":
		name := n.S("name")
		if name == "undefined" {
			return Undef{}
		}
		c, _ := f.lookup(n, name)
		if c == nil {
			m.raise("ReferenceError", "%s", name)
		}
		if _, bad := (*c).(uninit); bad {
			m.raise("ReferenceError", "%s before initialisation", name)
		}
		return *c
	case "ThisExpression":
		return f.this
	case "MemberExpression":
		o := f.eval(n.N("object"))
		return f.get(n, o, f.key(n))
	case "CallExpression":
		cal := n.N("callee")
		if cal.T == "MemberExpression" {
			o := f.eval(cal.N("object"))
			fn := f.get(cal, o, f.key(cal))
			return f.call(n, fn, o, f.args(n.L("arguments")))
		}
		fn := f.eval(cal)
		return f.call(n, fn, Undef{}, f.args(n.L("arguments")))
	case "NewExpression":
		fn := f.eval(n.N("callee"))
		a := f.args(n.L("arguments"))
		switch x := fn.(type) {
		case *Obj:
			return m.JsNew(x, a)
		case Native:
			return x.Fn(m, jsNewMark{}, a, nil)
		}
		m.raise("TypeError", "not a constructor (line %d)", n.Line)
	case "ArrayExpression":
		l := &List{}
		l.E = f.args(n.L("elements"))
		return l
	case "ObjectExpression":
		o := m.jsObject()
		for _, p := range n.L("properties") {
			if p.T != "Property" {
				f.unsup(p, "object element")
			}
			var k string
			kn := p.N("key")
			switch {
			case p.B("computed"):
				k = f.keyStr(n, f.eval(kn))
			case kn.T == "Identifier":
				k = kn.S("name")
			default:
				k = f.keyStr(n, f.eval(kn))
			}
			if p.S("kind") != "init" {
				if o.Acc == nil {
					o.Acc = map[string]*Accessor{}
				}
				a := o.Acc[k]
				if a == nil {
					a = &Accessor{Conf: true}
					o.Acc[k] = a
				}
				if p.S("kind") == "get" {
					a.Get = f.eval(p.N("value"))
				} else {
					a.Set = f.eval(p.N("value"))
				}
				continue
			}
			m.jsPut(o, k, f.named(p.N("value"), k))
		}
		return o
	case "FunctionExpression", "ArrowFunctionExpression":
		name := "anonymous"
		if id := n.N("id"); id != nil {
			name = id.S("name")
		}
		return f.function(n, name)
	case "UnaryExpression":
		return f.unary(n)
	case "UpdateExpression":
		d := int64(1)
		old := f.toNumeric(n, f.eval(n.N("argument")))
		var nv Value
		if b, ok := old.(Big); ok {
			if n.S("operator") == "++" {
				nv = Big{m.Add(b.V, d)}
			} else {
				nv = Big{m.Sub(b.V, d)}
			}
		} else {
			op := "+"
			if n.S("operator") == "--" {
				op = "-"
			}
			nv = f.arith(n, op, old, d)
		}
		f.assign(n.N("argument"), nv)
		if n.B("prefix") {
			return nv
		}
		return old
	case "BinaryExpression":
		return f.binary(n, n.S("operator"), f.eval(n.N("left")), f.eval(n.N("right")))
	case "LogicalExpression":
		return f.logical(n)
	case "ConditionalExpression":
		c := f.truth(f.eval(n.N("test")))
		if t, ok := c.(*sym.Term); ok {
			r, ok := m.Merge(t, func() (Value, bool) { return f.eval(n.N("consequent")), true }, func() (Value, bool) { return f.eval(n.N("alternate")), true })
			if ok {
				return r
			}
			c = m.Bool(t)
		}
		if c.(bool) {
			return f.eval(n.N("consequent"))
		}
		return f.eval(n.N("alternate"))
	case "AssignmentExpression":
		op := n.S("operator")
		l := n.N("left")
		if op == "=" {
			v := f.named(n.N("right"), jsTargetName(l))
			f.assign(l, v)
			return v
		}
		if strings.HasSuffix(op, "&&=") || strings.HasSuffix(op, "||=") || strings.HasSuffix(op, "??=") {
			f.unsup(n, "operator "+op)
		}
		if l.T == "MemberExpression" {
			o := f.eval(l.N("object"))
			k := f.key(l)
			v := f.binary(n, op[:len(op)-1], f.get(l, o, k), f.eval(n.N("right")))
			f.put(l, o, k, v)
			return v
		}
		v := f.binary(n, op[:len(op)-1], f.eval(l), f.eval(n.N("right")))
		f.assign(l, v)
		return v
	case "SequenceExpression":
		var v Value
		for _, e := range n.L("expressions") {
			v = f.eval(e)
		}
		return v
	case "ChainExpression":
		return f.eval(n.N("expression"))
	case "ParenthesizedExpression":
		return f.eval(n.N("expression"))
	case "TemplateLiteral":
		f.unsup(n, "expression")
	}
	f.unsup(n, "expression")
	return nil
}

type jsNewMark struct{}

func jsTargetName(n *Node) string {
	if n.T == "MemberExpression" && !n.B("computed") {
		s := n.N("property").S("name")
		if o := n.N("object"); o != nil {
			if b := jsTargetName(o); b != "" {
				return b + "." + s
			}
		}
		return s
	}
	return n.S("name")
}

func (f *jsFrame) assign(t *Node, v Value) {
	switch t.T {
	case "Identifier":
		c, e := f.lookup(t, t.S("name"))
		if c == nil {
			if f.strict {
				f.m.raise("ReferenceError", "%s", t.S("name"))
			}
			if f.mod.frozen {
				f.unsup(t, "write to an undeclared name")
			}
			// sloppy code makes a global
			f.mod.glob.vars[t.S("name")] = &v
			return
		}
		if e.shared != nil && *e.shared {
			f.unsup(t, "write to module state")
		}
		f.m.Set(c, v)
	case "MemberExpression":
		f.put(t, f.eval(t.N("object")), f.key(t), v)
	default:
		f.unsup(t, "assignment target")
	}
}

// key is the property key of a member expression: a string or a number.
func (f *jsFrame) key(n *Node) Value {
	if !n.B("computed") {
		return n.N("property").S("name")
	}
	return f.eval(n.N("property"))
}

func (f *jsFrame) keyStr(n *Node, k Value) string {
	switch k := k.(type) {
	case string:
		return k
	case int64:
		return strconv.FormatInt(k, 10)
	case Big:
		if i, ok := k.V.(int64); ok {
			return strconv.FormatInt(i, 10)
		}
	case Undef:
		return "undefined"
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(k)
	case float64:
		return fmt.Sprint(k)
	}
	f.unsup(n, fmt.Sprintf("property key %T", k))
	return ""
}

func (f *jsFrame) idx(k Value) (int, bool) {
	switch x := k.(type) {
	case int64:
		return int(x), x >= 0
	case Int:
		i := f.m.Conc(x)
		return int(i), i >= 0
	case string:
		i, err := strconv.Atoi(x)
		return i, err == nil && i >= 0 && strconv.Itoa(i) == x
	}
	return 0, false
}

func (f *jsFrame) get(n *Node, o Value, k Value) Value {
	m := f.m
	if u, ok := o.(*Union); ok {
		return m.Lift(u, func(v Value) Value { return f.get(n, v, k) })
	}
	if u, ok := k.(*Union); ok {
		return m.Lift(u, func(v Value) Value { return f.get(n, o, v) })
	}
	switch x := o.(type) {
	case *Obj:
		switch s := k.(type) {
		case Int:
			return f.tableGet(x, s)
		case Flt, *Str:
			f.unsup(n, "symbolic property key")
		}
		return m.jsGet(x, x, f.keyStr(n, k))
	case *List:
		if i, ok := f.idx(k); ok {
			if i < len(x.E) {
				return x.E[i]
			}
			return Undef{}
		}
		switch f.keyStr(n, k) {
		case "length":
			return int64(len(x.E))
		case "shift":
			return Native{"shift", func(m *M, this Value, a []Value, _ map[string]Value) Value {
				if m.depth > 0 {
					panic(Raised{"merge", ""})
				}
				if len(x.E) == 0 {
					return Undef{}
				}
				v := x.E[0]
				x.E = x.E[1:]
				return v
			}}
		case "push":
			return Native{"push", func(m *M, this Value, a []Value, _ map[string]Value) Value {
				if m.depth > 0 {
					panic(Raised{"merge", ""})
				}
				x.E = append(x.E, a...)
				return int64(len(x.E))
			}}
		}
	case *View:
		return f.viewGet(n, x, k)
	case string, *Str:
		s, _ := m.str(x)
		if s.Opaque {
			f.unsup(n, "text of unknown contents")
		}
		if i, ok := f.idx(k); ok {
			if i < len(s.U) {
				return m.mkStr(s.U[i : i+1])
			}
			return Undef{}
		}
		switch f.keyStr(n, k) {
		case "length":
			return int64(len(s.U))
		case "charCodeAt":
			return Native{"charCodeAt", func(m *M, this Value, a []Value, _ map[string]Value) Value {
				i := int64(0)
				if len(a) > 0 {
					i = m.Conc(a[0])
				}
				if i < 0 || i >= int64(len(s.U)) {
					return math.NaN()
				}
				return m.FromU(s.U[i])
			}}
		}
	case Native:
		if x.Fn == nil {
			break
		}
		if p, ok := jsStatics[x.Name+"."+f.keyStr(n, k)]; ok {
			return p
		}
		return Undef{}
	case Undef, nil:
		m.raise("TypeError", "property of %v (line %d)", x, n.Line)
	case int64, Int, float64, Flt, bool, *sym.Term, Big:
		return Undef{}
	}
	f.unsup(n, fmt.Sprintf("property %v of %T", k, o))
	return nil
}

// tableGet looks an integer up among the keys of an object.
func (f *jsFrame) tableGet(o *Obj, k Int) Value {
	m := f.m
	var r Value = Undef{}
	u := &Union{}
	none := m.P.True()
	for p := o; p != nil; p = p.Proto {
		for _, s := range p.Keys {
			i, err := strconv.ParseInt(s, 10, 64)
			if err != nil || strconv.FormatInt(i, 10) != s {
				continue
			}
			c := m.P.And(none, m.boolT(m.Cmp("==", k, i)))
			if c.IsFalse() {
				continue
			}
			u.C = append(u.C, c)
			u.V = append(u.V, *p.F[s])
			none = m.P.And(none, m.P.Not(c))
		}
	}
	if len(u.V) == 0 {
		return r
	}
	u.C = append(u.C, none)
	u.V = append(u.V, r)
	return u
}

func (m *M) jsGet(o, this *Obj, k string) Value {
	for p := o; p != nil; p = p.Proto {
		if a, ok := p.Acc[k]; ok {
			if a.Get == nil {
				return Undef{}
			}
			return m.jsInvoke(a.Get.(*Obj).Fn, this, nil)
		}
		if c, ok := p.F[k]; ok {
			return *c
		}
	}
	return Undef{}
}

func (f *jsFrame) put(n *Node, o Value, k Value, v Value) {
	m := f.m
	switch x := o.(type) {
	case *Obj:
		m.JsPut(x, f.keyStr(n, k), v)
		return
	case *List:
		if i, ok := f.idx(k); ok {
			if i >= len(x.E) {
				if m.depth > 0 {
					panic(Raised{"merge", ""})
				}
				for i >= len(x.E) {
					x.E = append(x.E, Undef{})
				}
			}
			m.Set(&x.E[i], v)
			return
		}
	case *View:
		if i, ok := f.idx(k); ok {
			if x.Kind != "Uint8Array" {
				f.unsup(n, "element of "+x.Kind)
			}
			t := f.toUint8(n, v)
			if i < x.N {
				m.Set(&x.Buf.B[x.Off+i], t)
			}
			return
		}
		return
	case Undef, nil:
		m.raise("TypeError", "setting a property of %v (line %d)", x, n.Line)
	}
	f.unsup(n, fmt.Sprintf("setting %v of %T", k, o))
}

// JsPut is an ordinary property assignment.
func (m *M) JsPut(o *Obj, k string, v Value) {
	for p := o; p != nil; p = p.Proto {
		if a, ok := p.Acc[k]; ok {
			if a.Set == nil {
				m.raise("TypeError", "%s has no setter", k) // strict mode
			}
			m.jsInvoke(a.Set.(*Obj).Fn, o, []Value{v})
			return
		}
		if _, ok := p.F[k]; ok {
			break
		}
	}
	m.jsPut(o, k, v)
}

func (f *jsFrame) viewGet(n *Node, x *View, k Value) Value {
	m := f.m
	if i, ok := f.idx(k); ok && x.Kind == "Uint8Array" {
		if i < x.N {
			return m.FromU(x.Buf.B[x.Off+i].(*sym.Term))
		}
		return Undef{}
	}
	if i, ok := k.(int64); ok && i < 0 {
		return Undef{}
	}
	s, ok := k.(string)
	if !ok {
		f.unsup(n, "array key")
	}
	if x.Kind == "DataView" {
		return f.dataView(n, x, s)
	}
	rng := func(a []Value) (lo, hi int) {
		lo, hi = 0, x.N
		clip := func(v Value) int {
			i := int(m.Conc(v))
			if i < 0 {
				i += x.N
			}
			return max(0, min(i, x.N))
		}
		if len(a) > 0 {
			if _, u := a[0].(Undef); !u {
				lo = clip(a[0])
			}
		}
		if len(a) > 1 {
			if _, u := a[1].(Undef); !u {
				hi = clip(a[1])
			}
		}
		return lo, max(lo, hi)
	}
	switch s {
	case "length", "byteLength":
		return int64(x.N)
	case "byteOffset":
		return int64(x.Off)
	case "buffer":
		return &View{Buf: x.Buf, N: len(x.Buf.B), Kind: "ArrayBuffer"}
	case "subarray":
		return Native{s, func(m *M, this Value, a []Value, _ map[string]Value) Value {
			lo, hi := rng(a)
			return &View{Buf: x.Buf, Off: x.Off + lo, N: hi - lo, Kind: x.Kind}
		}}
	case "slice":
		return Native{s, func(m *M, this Value, a []Value, _ map[string]Value) Value {
			lo, hi := rng(a)
			b := &Buf{B: append([]Value{}, x.Buf.B[x.Off+lo:x.Off+hi]...)}
			return &View{Buf: b, N: hi - lo, Kind: x.Kind}
		}}
	case "set":
		return Native{s, func(m *M, this Value, a []Value, _ map[string]Value) Value {
			off := 0
			if len(a) > 1 {
				off = int(m.Conc(a[1]))
			}
			var src []*sym.Term
			switch y := a[0].(type) {
			case *View:
				src = y.Terms()
			case *List:
				for _, e := range y.E {
					src = append(src, f.toUint8(n, e))
				}
			default:
				f.unsup(n, "set argument")
			}
			if off < 0 || off+len(src) > x.N {
				m.raise("RangeError", "offset is out of bounds")
			}
			for i, t := range src {
				m.Set(&x.Buf.B[x.Off+off+i], t)
			}
			return Undef{}
		}}
	case "fill":
		return Native{s, func(m *M, this Value, a []Value, _ map[string]Value) Value {
			t := f.toUint8(n, a[0])
			lo, hi := rng(a[1:])
			for i := lo; i < hi; i++ {
				m.Set(&x.Buf.B[x.Off+i], t)
			}
			return this
		}}
	}
	return Undef{}
}

func (f *jsFrame) dataView(n *Node, x *View, s string) Value {
	return Native{s, func(m *M, this Value, a []Value, _ map[string]Value) Value {
		set := strings.HasPrefix(s, "set")
		w := map[string]int{"Float32": 4, "Float64": 8, "Uint32": 4, "Int32": 4, "Uint16": 2, "Int16": 2, "Uint8": 1, "Int8": 1, "BigUint64": 8, "BigInt64": 8}[s[3:]]
		if w == 0 || len(a) == 0 {
			f.unsup(n, "DataView."+s)
		}
		off := int(m.Conc(a[0]))
		le := a[1:]
		if set {
			le = a[2:]
		}
		little := len(le) > 0 && m.Bool(f.truth(le[0]))
		if off < 0 || off+w > x.N {
			m.raise("RangeError", "offset is outside the bounds of the DataView")
		}
		cell := func(i int) *Value {
			if !little {
				i = w - 1 - i
			}
			return &x.Buf.B[x.Off+off+i]
		}
		if set {
			v := a[1]
			var t *sym.Term
			switch s[3:] {
			case "Float32", "Float64":
				ft, ok := m.FltTerm(f.toNumber(n, v))
				if !ok {
					f.unsup(n, "float argument")
				}
				t = ft
				if w == 4 {
					t = m.P.UF("f64.to.f32", 32, ft)
				}
			case "BigUint64", "BigInt64":
				b, ok := v.(Big)
				if !ok {
					m.raise("TypeError", "not a BigInt")
				}
				t = m.Wide(b.V, 64)
			default:
				t = m.P.Extract(f.toInt32(n, v), w*8-1, 0)
			}
			for i := 0; i < w; i++ {
				m.Set(cell(i), m.P.Extract(t, 8*i+7, 8*i))
			}
			return Undef{}
		}
		t := (*cell(0)).(*sym.Term)
		for i := 1; i < w; i++ {
			t = m.P.Concat((*cell(i)).(*sym.Term), t)
		}
		switch s[3:] {
		case "Float32":
			return m.mkNum(m.P.UF("f32.to.f64", 64, t))
		case "Float64":
			return m.mkNum(t)
		case "BigUint64":
			return Big{m.FromU(t)}
		case "BigInt64":
			return Big{m.FromS(t)}
		case "Int32", "Int16", "Int8":
			return m.FromS(t)
		}
		return m.FromU(t)
	}}
}

// mkNum is a double as a number value.
func (m *M) mkNum(t *sym.Term) Value {
	v := m.mkFlt(t)
	if c, ok := v.(float64); ok && !(c == 0 && math.Signbit(c)) {
		return jsNum(c)
	}
	return v
}
