package goi

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"vsym/sym"
)

// Program is a loaded SSA program, shared by all interpreters.
type Program struct {
	SSA     *ssa.Program
	Pkgs    map[string]*ssa.Package
	InitFor func(path string) bool // run package init for this import path
	mu      sync.Mutex
	infos   map[*ssa.Function]*fnInfo
}

type fnInfo struct {
	n       int
	reg     map[ssa.Value]int
	name    string
	intr    Intrinsic
	native  NativeCall
	methods map[string]*ssa.Function
}

type Intrinsic func(in *Interp, fr *frame, args []Value) Value
type NativeCall func(in *Interp, args []Value) (Value, bool)

func (pr *Program) info(fn *ssa.Function) *fnInfo {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	if pr.infos == nil {
		pr.infos = map[*ssa.Function]*fnInfo{}
	}
	if fi, ok := pr.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{reg: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		fi.reg[p] = fi.n
		fi.n++
	}
	for _, p := range fn.FreeVars {
		fi.reg[p] = fi.n
		fi.n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				fi.reg[v] = fi.n
				fi.n++
			}
		}
	}
	o := fn
	if o.Origin() != nil {
		o = o.Origin()
	}
	fi.name = o.String()
	fi.intr = intrinsics[fi.name]
	fi.native = natives[fi.name]
	pr.infos[fn] = fi
	return fi
}

// Interp is one interpreter state (heap) on one path.
type Interp struct {
	Prog    *Program
	P       *sym.Path
	globals map[*ssa.Global]Ptr
	inited  map[*ssa.Package]bool
	once    map[Ptr]bool
	depth   int
	Called  map[string]int // functions executed, for evidence
	Stubs   map[string]Intrinsic
	pre     map[string]func(in *Interp, args []Value) (Value, bool)
	Tag     map[string]any
	consts  map[*ssa.Const]Value
	Trace   bool
	Stack   []string
}

func New(pr *Program, p *sym.Path) *Interp {
	return &Interp{Prog: pr, P: p, globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]bool{}, once: map[Ptr]bool{},
		Called: map[string]int{}, Stubs: map[string]Intrinsic{}, Tag: map[string]any{}, consts: map[*ssa.Const]Value{}}
}

// SetStub replaces a function by name.
func (in *Interp) SetStub(name string, f func(in *Interp, args []Value) Value) {
	in.Stubs[name] = func(in *Interp, fr *frame, args []Value) Value { return f(in, args) }
}

// SetPre replaces those calls of a function for which f answers true.
func (in *Interp) SetPre(name string, f func(in *Interp, args []Value) (Value, bool)) {
	if in.pre == nil {
		in.pre = map[string]func(in *Interp, args []Value) (Value, bool){}
	}
	in.pre[name] = f
}

// NewError makes an error value.
func (in *Interp) NewError(s string) Value { return in.newError(in.str(s)) }

func (in *Interp) Global(g *ssa.Global) Ptr {
	if p, ok := in.globals[g]; ok {
		return p
	}
	if g.Pkg != nil {
		in.InitPkg(g.Pkg)
	}
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = in.Zero(g.Type().(*types.Pointer).Elem())
	in.globals[g] = p
	return p
}

func (in *Interp) InitPkg(pkg *ssa.Package) {
	if in.inited[pkg] {
		return
	}
	in.inited[pkg] = true
	if in.Prog.InitFor != nil && !in.Prog.InitFor(pkg.Pkg.Path()) {
		return
	}
	if f := pkg.Func("init"); f != nil {
		in.call(f, nil, nil)
	}
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	in       *Interp
	fn       *ssa.Function
	fi       *fnInfo
	regs     []Value
	defers   []deferred
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	result   Value
	panicked *GoPanic
	recov    bool
	caller   *frame
	bind     []Value
	merged   bool
}

func (fr *frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.in.constVal(x)
	case *ssa.Global:
		return fr.in.Global(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	case nil:
		return nil
	}
	return fr.regs[fr.fi.reg[v]]
}

func (fr *frame) set(v ssa.Value, x Value) { fr.regs[fr.fi.reg[v]] = x }

func (in *Interp) constVal(c *ssa.Const) Value {
	if v, ok := in.consts[c]; ok {
		return v
	}
	v := in.constVal1(c)
	switch v.(type) {
	case *sym.Term, *Str:
		in.consts[c] = v
	}
	return v
}

func (in *Interp) constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return in.Zero(c.Type())
	}
	t := c.Type()
	if tp, ok := t.Underlying().(*types.Interface); ok {
		_ = tp
		sym.Unsupported("interface constant")
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return in.str(constant.StringVal(c.Value))
		}
		return in.str(string(rune(c.Int64())))
	}
	bi, ok := basic(t)
	if !ok {
		sym.Unsupported("constant of type %s", t)
	}
	if bi.w == 0 {
		return in.P.Bool(constant.BoolVal(c.Value))
	}
	if bi.float {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return in.floatConst(f, bi.w)
	}
	iv := constant.ToInt(c.Value)
	if u, ok := constant.Uint64Val(iv); ok {
		return in.P.BV(bi.w, u)
	}
	i, _ := constant.Int64Val(iv)
	return in.P.SBV(bi.w, i)
}

// Call runs a function by value.
func (in *Interp) Call(fn Value, args []Value) Value { return in.callValue(nil, fn, args) }

// Catch runs f and returns the Go panic that escaped it, if any.
func (in *Interp) Catch(f func()) (gp *GoPanic) {
	d := in.depth
	st := in.Stack
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(*GoPanic); ok {
				gp = g
				in.depth = d
				in.Stack = st
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (in *Interp) callValue(fr *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return in.call(f, args, nil)
	case *Closure:
		if f == nil {
			panic(&GoPanic{RT: "invalid memory address or nil pointer dereference"})
		}
		return in.call(f.Fn, args, f.Free)
	case *NativeFn:
		return f.F(in, args)
	}
	sym.Unsupported("call of %T", fn)
	return nil
}

func (in *Interp) call(fn *ssa.Function, args []Value, free []Value) Value {
	fi := in.Prog.info(fn)
	if s, ok := in.Stubs[fi.name]; ok {
		return s(in, &frame{in: in, fn: fn}, args)
	}
	if s, ok := in.pre[fi.name]; ok {
		if r, ok := s(in, args); ok {
			return r
		}
	}
	if fi.native != nil {
		if r, ok := fi.native(in, args); ok {
			return r
		}
	}
	if fi.intr != nil {
		return fi.intr(in, &frame{in: in, fn: fn}, args)
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil {
		// package initializer reached through an import
		if in.Prog.InitFor != nil && !in.Prog.InitFor(fn.Pkg.Pkg.Path()) {
			in.inited[fn.Pkg] = true
			return Tuple(nil)
		}
		in.inited[fn.Pkg] = true
	}
	if len(fn.Blocks) == 0 {
		sym.Unsupported("no body: %s", fi.name)
	}
	if fn.Pkg != nil && !in.inited[fn.Pkg] {
		in.InitPkg(fn.Pkg)
	}
	in.Called[fi.name]++
	in.depth++
	if in.depth > 2000 {
		sym.Unsupported("call depth in %s", fi.name)
	}
	if in.Trace {
		fmt.Printf("%s%s\n", strings.Repeat(" ", in.depth), fi.name)
	}
	in.Stack = append(in.Stack, fi.name)
	defer func() { in.depth--; in.Stack = in.Stack[:len(in.Stack)-1] }()
	fr := &frame{in: in, fn: fn, fi: fi, regs: make([]Value, fi.n)}
	for i := range fn.Params {
		fr.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.regs[len(fn.Params)+i] = free[i]
	}
	fr.block = fn.Blocks[0]
	fr.run()
	return fr.result
}

// run executes the frame including deferred calls and recovery.
func (fr *frame) run() {
	hasDefer := fr.fn.Recover != nil || fnHasDefer(fr.fn)
	if !hasDefer {
		fr.exec()
		return
	}
	d := fr.in.depth
	st := fr.in.Stack
	func() {
		defer func() {
			if r := recover(); r != nil {
				g, ok := r.(*GoPanic)
				if !ok {
					panic(r)
				}
				fr.in.depth = d
				fr.in.Stack = st
				fr.panicked = g
			}
		}()
		fr.exec()
	}()
	if fr.panicked == nil {
		return
	}
	fr.runDefers()
	if fr.panicked != nil {
		panic(fr.panicked)
	}
	if fr.fn.Recover != nil {
		fr.block = fr.fn.Recover
		fr.prev = nil
		fr.exec()
	} else {
		fr.result = fr.in.Zero(fr.fn.Signature.Results())
		if t, ok := fr.result.(Tuple); ok && len(t) == 1 {
			fr.result = t[0]
		}
	}
}

var deferMu sync.Mutex
var deferCache = map[*ssa.Function]bool{}

func fnHasDefer(fn *ssa.Function) bool {
	deferMu.Lock()
	defer deferMu.Unlock()
	if v, ok := deferCache[fn]; ok {
		return v
	}
	r := false
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	deferCache[fn] = r
	return r
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			dep := fr.in.depth
			st := fr.in.Stack
			defer func() {
				if r := recover(); r != nil {
					g, ok := r.(*GoPanic)
					if !ok {
						panic(r)
					}
					fr.in.depth = dep
					fr.in.Stack = st
					fr.panicked = g
				}
			}()
			old := fr.in.Tag["panicking"]
			fr.in.Tag["panicking"] = fr
			defer func() { fr.in.Tag["panicking"] = old }()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				fr.builtin(b, d.call, d.args)
			} else {
				fr.in.callValue(fr, d.fn, d.args)
			}
		}()
	}
}

func (fr *frame) exec() {
	in := fr.in
	for {
		b := fr.block
		var next *ssa.BasicBlock
		// phis first, in parallel
		np := 0
		for np < len(b.Instrs) {
			if _, ok := b.Instrs[np].(*ssa.Phi); !ok {
				break
			}
			np++
		}
		if np > 0 && !fr.merged {
			idx := -1
			for i, p := range b.Preds {
				if p == fr.prev {
					idx = i
					break
				}
			}
			tmp := make([]Value, np)
			for i := 0; i < np; i++ {
				tmp[i] = fr.get(b.Instrs[i].(*ssa.Phi).Edges[idx])
			}
			for i := 0; i < np; i++ {
				fr.set(b.Instrs[i].(*ssa.Phi), tmp[i])
			}
		}
		fr.merged = false
		for _, ins := range b.Instrs[np:] {
			in.P.Step()
			switch x := ins.(type) {
			case *ssa.If:
				c := fr.get(x.Cond).(*sym.Term)
				if !c.IsConst() {
					if j := fr.merge(x, c); j != nil {
						fr.merged = true
						next = j
						continue
					}
				}
				if in.P.Branch(c) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					fr.result = Tuple(nil)
				case 1:
					fr.result = fr.get(x.Results[0])
				default:
					t := make(Tuple, len(x.Results))
					for i, r := range x.Results {
						t[i] = fr.get(r)
					}
					fr.result = t
				}
				return
			default:
				fr.instr(ins)
			}
		}
		fr.prev, fr.block = b, next
	}
}

func (fr *frame) instr(ins ssa.Instruction) {
	in := fr.in
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		p := new(Value)
		*p = in.Zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.set(x, p)
	case *ssa.BinOp:
		fr.set(x, in.binop(x.Op, x.X.Type(), x.Y.Type(), fr.get(x.X), fr.get(x.Y)))
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.Store:
		in.store(fr.get(x.Addr), copyVal(fr.get(x.Val)), x.Val.Type())
	case *ssa.FieldAddr:
		p := in.deref(fr.get(x.X))
		s, ok := (*p).(Struct)
		if !ok {
			sym.Unsupported("FieldAddr of %T in %s", *p, fr.fn)
		}
		fr.set(x, Ptr(&s[x.Field]))
	case *ssa.Field:
		fr.set(x, fr.get(x.X).(Struct)[x.Field])
	case *ssa.IndexAddr:
		v := fr.get(x.X)
		var elems []Value
		switch u := v.(type) {
		case Slice:
			elems = u
		case Ptr, *SymPtr:
			p := in.deref(u)
			elems = (*p).(Array)
		default:
			sym.Unsupported("IndexAddr of %T", v)
		}
		idx := in.P.Resize(fr.get(x.Index).(*sym.Term), 64, isSigned(x.Index.Type()))
		in.bounds(idx, len(elems))
		if idx.IsConst() {
			fr.set(x, Ptr(&elems[idx.V]))
		} else {
			fr.set(x, &SymPtr{elems, idx})
		}
	case *ssa.Index:
		v := fr.get(x.X)
		idx := in.P.Resize(fr.get(x.Index).(*sym.Term), 64, isSigned(x.Index.Type()))
		switch u := v.(type) {
		case Array:
			in.bounds(idx, len(u))
			fr.set(x, in.selectElem(u, idx))
		case *Str:
			fr.set(x, in.strIndex(u, idx))
		default:
			sym.Unsupported("Index of %T", v)
		}
	case *ssa.Lookup:
		v := fr.get(x.X)
		if s, ok := v.(*Str); ok {
			idx := in.P.Resize(fr.get(x.Index).(*sym.Term), 64, isSigned(x.Index.Type()))
			fr.set(x, in.strIndex(s, idx))
			return
		}
		m := v.(*Map)
		e := in.mapFind(m, fr.get(x.Index))
		var val Value
		if e != nil {
			val = copyVal(e.v)
		} else {
			val = in.Zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			fr.set(x, Tuple{val, in.P.Bool(e != nil)})
		} else {
			fr.set(x, val)
		}
	case *ssa.MapUpdate:
		in.mapSet(fr.get(x.Map).(*Map), fr.get(x.Key), copyVal(fr.get(x.Value)))
	case *ssa.MakeMap:
		fr.set(x, newMap())
	case *ssa.MakeSlice:
		n := in.concreteInt(fr.get(x.Len))
		c := in.concreteInt(fr.get(x.Cap))
		if n < 0 || c < n {
			panic(&GoPanic{RT: "makeslice: len out of range"})
		}
		if c > 1<<22 {
			sym.Unsupported("huge make")
		}
		s := make(Slice, c)
		el := x.Type().Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = in.Zero(el)
		}
		fr.set(x, s[:n])
	case *ssa.MakeClosure:
		fv := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			fv[i] = fr.get(b)
		}
		fr.set(x, &Closure{x.Fn.(*ssa.Function), fv})
	case *ssa.MakeInterface:
		fr.set(x, Iface{x.X.Type(), copyVal(fr.get(x.X))})
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.Convert:
		fr.set(x, in.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.MultiConvert:
		fr.set(x, in.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(x.X).(Slice)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int64(len(s)) < at.Len() {
			panic(&GoPanic{RT: "slice to array: length"})
		}
		p := new(Value)
		*p = Array(s[:at.Len():at.Len()])
		fr.set(x, p)
	case *ssa.TypeAssert:
		fr.set(x, in.typeAssert(x, fr.get(x.X)))
	case *ssa.Extract:
		fr.set(x, fr.get(x.Tuple).(Tuple)[x.Index])
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.Range:
		fr.set(x, in.rangeIter(fr.get(x.X)))
	case *ssa.Next:
		fr.set(x, in.next(x, fr.get(x.Iter).(*iter)))
	case *ssa.Call:
		fr.set(x, fr.callCommon(&x.Call))
	case *ssa.Defer:
		fn, args := fr.prepare(&x.Call)
		fr.defers = append(fr.defers, deferred{fn, args, &x.Call})
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicked != nil {
			g := fr.panicked
			panic(g)
		}
	case *ssa.Panic:
		panic(&GoPanic{V: fr.get(x.X)})
	case *ssa.Go:
		sym.Unsupported("go statement in %s", fr.fn)
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		sym.Unsupported("channel operation in %s", fr.fn)
	default:
		sym.Unsupported("instruction %T", ins)
	}
}

func isSigned(t types.Type) bool {
	bi, ok := basic(t)
	return ok && bi.signed
}

func (in *Interp) bounds(idx *sym.Term, n int) {
	ok := in.P.Ult(idx, in.P.BV(64, uint64(n)))
	if !in.P.Branch(ok) {
		panic(&GoPanic{RT: fmt.Sprintf("index out of range [%s] with length %d", idx, n)})
	}
}

func (in *Interp) selectElem(a []Value, idx *sym.Term) Value {
	if idx.IsConst() {
		return copyVal(a[idx.V])
	}
	// ite chain when all elements are scalars of one width
	t0, ok := a[0].(*sym.Term)
	if ok {
		r := t0
		good := true
		for i := 1; i < len(a); i++ {
			t, ok := a[i].(*sym.Term)
			if !ok || t.W != t0.W {
				good = false
				break
			}
			r = in.P.Ite(in.P.Eq(idx, in.P.BV(64, uint64(i))), t, r)
		}
		if good {
			return r
		}
	}
	return copyVal(a[in.P.Concretize(idx).V])
}

func (in *Interp) strIndex(s *Str, idx *sym.Term) Value {
	in.bounds(idx, s.Len())
	if idx.IsConst() {
		if s.B == nil {
			return in.P.BV(8, uint64(s.S[idx.V]))
		}
		return s.B[idx.V]
	}
	b := in.StrBytes(s)
	vs := make([]Value, len(b))
	for i := range b {
		vs[i] = b[i]
	}
	return in.selectElem(vs, idx)
}

func (in *Interp) concreteInt(v Value) int {
	t := v.(*sym.Term)
	if !t.IsConst() {
		t = in.P.Concretize(t)
	}
	return int(t.S64())
}

func nilDeref() { panic(&GoPanic{RT: "invalid memory address or nil pointer dereference"}) }

func (in *Interp) deref(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		if p == nil {
			nilDeref()
		}
		return p
	case *SymPtr:
		i := in.P.Concretize(p.Idx)
		return &p.Elems[i.V]
	case *CastPtr:
		return p.P
	}
	sym.Unsupported("deref of %T", v)
	return nil
}

func (in *Interp) load(v Value, t types.Type) Value {
	switch p := v.(type) {
	case Ptr:
		if p == nil {
			nilDeref()
		}
		return copyVal(*p)
	case *SymPtr:
		return in.selectElem(p.Elems, p.Idx)
	case *CastPtr:
		return in.reinterpret(*p.P, t)
	}
	sym.Unsupported("load through %T", v)
	return nil
}

// reinterpret reads a scalar cell with another scalar type of the same size.
func (in *Interp) reinterpret(v Value, t types.Type) Value {
	bi, ok := basic(t)
	x, ok2 := v.(*sym.Term)
	if !ok || !ok2 {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Struct:
			return copyVal(v)
		}
		if s, ok := v.(Slice); ok && isString(t) {
			b := make([]*sym.Term, len(s))
			for i := range s {
				b[i] = s[i].(*sym.Term)
			}
			return in.mkstr(b)
		}
		if s, ok := v.(*Str); ok {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				if b, ok := basic(sl.Elem()); ok && b.w == 8 {
					bs := in.StrBytes(s)
					r := make(Slice, len(bs))
					for i := range bs {
						r[i] = bs[i]
					}
					return r
				}
			}
		}
		sym.Unsupported("reinterpret %T as %s", v, t)
	}
	if bi.w == 0 && x.W == 8 {
		return in.P.NonZero(x)
	}
	if bi.w == 8 && x.W == 0 {
		return in.P.BoolToBV(x, 8)
	}
	if bi.w < x.W && bi.w > 0 { // little endian partial read
		return in.P.Extract(x, bi.w-1, 0)
	}
	if bi.w != x.W {
		sym.Unsupported("reinterpret %d bits as %s", x.W, t)
	}
	return x
}

func (in *Interp) store(addr Value, v Value, t types.Type) {
	switch p := addr.(type) {
	case Ptr:
		if p == nil {
			nilDeref()
		}
		// keep interior pointers valid: assign aggregates element-wise
		if s, ok := v.(Struct); ok {
			if d, ok := (*p).(Struct); ok && len(d) == len(s) {
				storeInto(d, s)
				return
			}
		}
		if s, ok := v.(Array); ok {
			if d, ok := (*p).(Array); ok && len(d) == len(s) {
				storeInto(d, s)
				return
			}
		}
		*p = v
	case *SymPtr:
		nv, ok := v.(*sym.Term)
		if !ok {
			*in.deref(p) = v
			return
		}
		for i := range p.Elems {
			c := in.P.Eq(p.Idx, in.P.BV(64, uint64(i)))
			p.Elems[i] = in.P.Ite(c, nv, p.Elems[i].(*sym.Term))
		}
	case *CastPtr:
		x := v.(*sym.Term)
		old, ok := (*p.P).(*sym.Term)
		if !ok {
			sym.Unsupported("store of scalar over %T", *p.P)
		}
		switch {
		case old.W == x.W:
			*p.P = x
		case old.W == 0 && x.W == 8:
			*p.P = in.P.NonZero(x)
		case old.W == 8 && x.W == 0:
			*p.P = in.P.BoolToBV(x, 8)
		case x.W < old.W:
			*p.P = in.P.Concat(in.P.Extract(old, old.W-1, x.W), x)
		default:
			sym.Unsupported("wide store through cast pointer")
		}
	default:
		sym.Unsupported("store through %T", addr)
	}
}

func storeInto(d, s []Value) {
	for i := range s {
		switch x := s[i].(type) {
		case Struct:
			if y, ok := d[i].(Struct); ok && len(x) == len(y) {
				storeInto(y, x)
				continue
			}
		case Array:
			if y, ok := d[i].(Array); ok && len(x) == len(y) {
				storeInto(y, x)
				continue
			}
		}
		d[i] = s[i]
	}
}

func (fr *frame) unop(x *ssa.UnOp) Value {
	in := fr.in
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		return in.load(v, x.Type())
	case token.NOT:
		return in.P.Not(v.(*sym.Term))
	case token.SUB:
		bi, _ := basic(x.Type())
		if bi.float {
			return in.P.UF(fmt.Sprintf("f%d.neg", bi.w), bi.w, v.(*sym.Term))
		}
		return in.P.Neg(v.(*sym.Term))
	case token.XOR:
		return in.P.Not(v.(*sym.Term))
	}
	sym.Unsupported("unary %s", x.Op)
	return nil
}

func (in *Interp) binop(op token.Token, xt, yt types.Type, a, b Value) Value {
	p := in.P
	switch op {
	case token.EQL:
		if bi, ok := basic(xt); ok && bi.float {
			return p.UF(fmt.Sprintf("f%d.eq", bi.w), 0, a.(*sym.Term), b.(*sym.Term))
		}
		return in.Eq(a, b)
	case token.NEQ:
		if bi, ok := basic(xt); ok && bi.float {
			return p.Not(p.UF(fmt.Sprintf("f%d.eq", bi.w), 0, a.(*sym.Term), b.(*sym.Term)))
		}
		return p.Not(in.Eq(a, b))
	}
	if s, ok := a.(*Str); ok {
		t := b.(*Str)
		switch op {
		case token.ADD:
			if s.B == nil && t.B == nil {
				return in.str(s.S + t.S)
			}
			return in.mkstr(append(append([]*sym.Term{}, in.StrBytes(s)...), in.StrBytes(t)...))
		case token.LSS:
			return in.strLess(s, t)
		case token.GTR:
			return in.strLess(t, s)
		case token.LEQ:
			return p.Not(in.strLess(t, s))
		case token.GEQ:
			return p.Not(in.strLess(s, t))
		}
	}
	x, ok1 := a.(*sym.Term)
	y, ok2 := b.(*sym.Term)
	if !ok1 || !ok2 {
		sym.Unsupported("binop %s on %T %T", op, a, b)
	}
	bi, _ := basic(xt)
	if bi.float {
		f := fmt.Sprintf("f%d.", bi.w)
		switch op {
		case token.ADD:
			return p.UF(f+"add", bi.w, x, y)
		case token.SUB:
			return p.UF(f+"sub", bi.w, x, y)
		case token.MUL:
			return p.UF(f+"mul", bi.w, x, y)
		case token.QUO:
			return p.UF(f+"div", bi.w, x, y)
		case token.LSS:
			return p.UF(f+"lt", 0, x, y)
		case token.GTR:
			return p.UF(f+"lt", 0, y, x)
		case token.LEQ:
			return p.UF(f+"le", 0, x, y)
		case token.GEQ:
			return p.UF(f+"le", 0, y, x)
		}
		sym.Unsupported("float op %s", op)
	}
	switch op {
	case token.ADD:
		return p.Add(x, y)
	case token.SUB:
		return p.Sub(x, y)
	case token.MUL:
		return p.Mul(x, y)
	case token.QUO, token.REM:
		if !p.Branch(p.NonZero(y)) {
			panic(&GoPanic{RT: "integer divide by zero"})
		}
		switch {
		case op == token.QUO && bi.signed:
			return p.SDiv(x, y)
		case op == token.QUO:
			return p.UDiv(x, y)
		case bi.signed:
			return p.SRem(x, y)
		}
		return p.URem(x, y)
	case token.AND:
		return p.And(x, y)
	case token.OR:
		return p.Or(x, y)
	case token.XOR:
		return p.Xor(x, y)
	case token.AND_NOT:
		return p.And(x, p.Not(y))
	case token.SHL, token.SHR:
		yi, _ := basic(yt)
		if yi.signed {
			if p.Branch(p.Slt(y, p.BV(y.W, 0))) {
				panic(&GoPanic{RT: "negative shift amount"})
			}
		}
		w := max(x.W, y.W)
		var yy = p.Zext(y, w)
		var xx *sym.Term
		if op == token.SHL {
			xx = p.Zext(x, w)
			return p.Extract(p.Shl(xx, yy), x.W-1, 0)
		}
		if bi.signed {
			return p.Extract(p.Ashr(p.Sext(x, w), yy), x.W-1, 0)
		}
		return p.Extract(p.Lshr(p.Zext(x, w), yy), x.W-1, 0)
	case token.LSS:
		if bi.signed {
			return p.Known(p.Slt(x, y))
		}
		return p.Known(p.Ult(x, y))
	case token.LEQ:
		if bi.signed {
			return p.Sle(x, y)
		}
		return p.Ule(x, y)
	case token.GTR:
		if bi.signed {
			return p.Known(p.Slt(y, x))
		}
		return p.Known(p.Ult(y, x))
	case token.GEQ:
		if bi.signed {
			return p.Sle(y, x)
		}
		return p.Ule(y, x)
	}
	sym.Unsupported("binop %s", op)
	return nil
}

func (in *Interp) strLess(s, t *Str) *sym.Term {
	p := in.P
	if s.B == nil && t.B == nil {
		return p.Bool(s.S < t.S)
	}
	a, b := in.StrBytes(s), in.StrBytes(t)
	r := p.Bool(len(a) < len(b))
	for i := min(len(a), len(b)) - 1; i >= 0; i-- {
		r = p.Or(p.Ult(a[i], b[i]), p.And(p.Eq(a[i], b[i]), r))
	}
	return r
}

func (in *Interp) convert(from, to types.Type, v Value) Value {
	p := in.P
	fu, tu := from.Underlying(), to.Underlying()
	if _, ok := tu.(*types.TypeParam); ok {
		sym.Unsupported("conversion to type parameter")
	}
	fb, fok := basic(from)
	tb, tok := basic(to)
	if fok && tok {
		x := v.(*sym.Term)
		switch {
		case !fb.float && !tb.float:
			return p.Resize(x, tb.w, fb.signed)
		case fb.float && tb.float:
			if fb.w == tb.w {
				return x
			}
			return p.UF(fmt.Sprintf("f%d.to.f%d", fb.w, tb.w), tb.w, x)
		case tb.float:
			if fb.signed {
				return p.UF(fmt.Sprintf("f%d.from.s64", tb.w), tb.w, p.Sext(x, 64))
			}
			return p.UF(fmt.Sprintf("f%d.from.u64", tb.w), tb.w, p.Zext(x, 64))
		default:
			if fb.w == 32 {
				x = p.UF("f32.to.f64", 64, x)
			}
			n := "f64.to.s64"
			if !tb.signed && tb.w == 64 {
				n = "f64.to.u64"
			}
			return p.Extract(p.UF(n, 64, x), tb.w-1, 0)
		}
	}
	if isString(to) {
		switch s := v.(type) {
		case Slice:
			el := fu.(*types.Slice).Elem()
			eb, _ := basic(el)
			if eb.w == 8 {
				b := make([]*sym.Term, len(s))
				for i := range s {
					b[i] = s[i].(*sym.Term)
				}
				return in.mkstr(b)
			}
			// []rune
			var out []*sym.Term
			for _, e := range s {
				out = append(out, in.encodeRune(e.(*sym.Term))...)
			}
			return in.mkstr(out)
		case *sym.Term:
			return in.mkstr(in.encodeRune(p.Resize(s, 32, fb.signed)))
		case *Str:
			return s
		}
	}
	if isString(from) {
		s := v.(*Str)
		if st, ok := tu.(*types.Slice); ok {
			eb, _ := basic(st.Elem())
			if eb.w == 8 {
				b := in.StrBytes(s)
				r := make(Slice, len(b))
				for i := range b {
					r[i] = b[i]
				}
				return r
			}
			var r = Slice{}
			for i := 0; i < s.Len(); {
				rn, n := in.decodeRune(s, i)
				r = append(r, rn)
				i += n
			}
			return r
		}
	}
	// unsafe pointers
	if bt, ok := tu.(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
		return v
	}
	if bt, ok := fu.(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
		pt, ok := tu.(*types.Pointer)
		if !ok {
			sym.Unsupported("unsafe.Pointer to %s", to)
		}
		switch q := v.(type) {
		case Ptr:
			if q == nil {
				return q
			}
			return &CastPtr{q, pt.Elem()}
		case *CastPtr:
			return &CastPtr{q.P, pt.Elem()}
		case *SymPtr:
			return &CastPtr{in.deref(q), pt.Elem()}
		}
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Struct, *types.Map, *types.Signature, *types.Array:
		return v
	}
	sym.Unsupported("convert %s to %s", from, to)
	return nil
}

func (in *Interp) encodeRune(r *sym.Term) []*sym.Term {
	p := in.P
	if r.IsConst() {
		var out []*sym.Term
		for _, b := range []byte(string(rune(int32(r.V)))) {
			out = append(out, p.BV(8, uint64(b)))
		}
		return out
	}
	if p.Branch(p.Ult(r, p.BV(32, 0x80))) {
		return []*sym.Term{p.Extract(r, 7, 0)}
	}
	if p.Branch(p.Ult(r, p.BV(32, 0x800))) {
		return []*sym.Term{p.Or(p.BV(8, 0xC0), p.Zext(p.Extract(r, 10, 6), 8)), p.Or(p.BV(8, 0x80), p.Zext(p.Extract(r, 5, 0), 8))}
	}
	sym.Unsupported("symbolic rune >= 0x800")
	return nil
}

// decodeRune reads a rune; symbolic bytes fork on ASCII and otherwise stop.
func (in *Interp) decodeRune(s *Str, i int) (*sym.Term, int) {
	p := in.P
	if s.B == nil {
		for j, r := range s.S[i:] {
			if j == 0 {
				n := len(string(r))
				if r == 0xFFFD && s.S[i] != 0xEF {
					n = 1
				}
				return p.BV(32, uint64(uint32(r))), n
			}
		}
	}
	b := s.B[i]
	if p.Branch(p.Ult(b, p.BV(8, 0x80))) {
		return p.Zext(b, 32), 1
	}
	sym.Unsupported("non-ASCII symbolic rune")
	return nil, 0
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	f := v.(Iface)
	ok := false
	var res Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if f.T != nil && in.implements(f.T, it) {
			ok = true
			res = f
		} else {
			res = Iface{}
		}
	} else {
		if f.T != nil && types.Identical(f.T, x.AssertedType) {
			ok = true
			res = copyVal(f.V)
		} else {
			res = in.Zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{res, in.P.Bool(ok)}
	}
	if !ok {
		panic(&GoPanic{RT: fmt.Sprintf("interface conversion: %v is not %s", f.T, x.AssertedType)})
	}
	return res
}

func (fr *frame) slice(x *ssa.Slice) Value {
	in := fr.in
	p := in.P
	v := fr.get(x.X)
	opt := func(e ssa.Value) *sym.Term {
		if e == nil {
			return nil
		}
		return p.Resize(fr.get(e).(*sym.Term), 64, isSigned(e.Type()))
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	var length, capacity int
	var elems []Value
	var str *Str
	switch u := v.(type) {
	case *Str:
		str = u
		length, capacity = u.Len(), u.Len()
	case Slice:
		elems = u[:cap(u)]
		length, capacity = len(u), cap(u)
	case Ptr, *SymPtr:
		a := (*in.deref(u)).(Array)
		elems = a
		length, capacity = len(a), len(a)
	default:
		sym.Unsupported("slice of %T", v)
	}
	get := func(t *sym.Term, def int) *sym.Term {
		if t == nil {
			return p.BV(64, uint64(def))
		}
		return t
	}
	l, h, m := get(lo, 0), get(hi, length), get(mx, capacity)
	limit := p.BV(64, uint64(capacity))
	ok := p.AndN(p.Ule(m, limit), p.Ule(h, m), p.Ule(l, h))
	if !p.Branch(ok) {
		panic(&GoPanic{RT: fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", l, h, capacity)})
	}
	li, hi2, mi := in.concreteInt(l), in.concreteInt(h), in.concreteInt(m)
	if str != nil {
		if str.B == nil {
			return in.str(str.S[li:hi2])
		}
		return in.mkstr(str.B[li:hi2])
	}
	if s, ok := v.(Slice); ok && s == nil {
		return Slice(nil)
	}
	return Slice(elems[li:hi2:mi])
}

type iter struct {
	str  *Str
	pos  int
	m    *Map
	ents []*mapEntry
}

func (in *Interp) rangeIter(v Value) Value {
	switch x := v.(type) {
	case *Str:
		return &iter{str: x}
	case *Map:
		it := &iter{m: x}
		if x != nil {
			it.ents = append(it.ents, x.ents...)
			if f, ok := in.Tag["maporder"].(func(n int) []int); ok {
				var live []*mapEntry
				for _, e := range it.ents {
					if !e.dead {
						live = append(live, e)
					}
				}
				ord := f(len(live))
				it.ents = nil
				for _, i := range ord {
					it.ents = append(it.ents, live[i])
				}
			}
		}
		return it
	}
	sym.Unsupported("range over %T", v)
	return nil
}

func (in *Interp) next(x *ssa.Next, it *iter) Value {
	p := in.P
	if x.IsString {
		if it.pos >= it.str.Len() {
			return Tuple{p.False(), p.BV(64, 0), p.BV(32, 0)}
		}
		r, n := in.decodeRune(it.str, it.pos)
		pos := it.pos
		it.pos += n
		return Tuple{p.True(), p.BV(64, uint64(pos)), r}
	}
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{p.True(), e.k, copyVal(e.v)}
	}
	return Tuple{p.False(), nil, nil}
}

func (fr *frame) prepare(c *ssa.CallCommon) (Value, []Value) {
	in := fr.in
	var args []Value
	if c.IsInvoke() {
		recv := fr.get(c.Value).(Iface)
		if recv.T == nil {
			nilDeref()
		}
		if nf, ok := recv.V.(*NativeObj); ok {
			m := c.Method.Name()
			for _, a := range c.Args {
				args = append(args, fr.get(a))
			}
			return &NativeFn{m, func(in *Interp, as []Value) Value { return nf.Call(in, m, as) }}, args
		}
		fn := in.FindMethod(recv.T, c.Method)
		if fn == nil {
			sym.Unsupported("no method %s on %s", c.Method, recv.T)
		}
		args = append(args, recv.V)
		for _, a := range c.Args {
			args = append(args, copyVal(fr.get(a)))
		}
		return fn, args
	}
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return fr.get(c.Value), args
}

// NativeObj is an opaque object with native methods.
type NativeObj struct {
	Call func(in *Interp, method string, args []Value) Value
}

var methMu sync.Mutex

func (in *Interp) FindMethod(t types.Type, m *types.Func) *ssa.Function {
	methMu.Lock()
	defer methMu.Unlock()
	return in.Prog.SSA.LookupMethod(t, m.Pkg(), m.Name())
}

func (fr *frame) callCommon(c *ssa.CallCommon) Value {
	fn, args := fr.prepare(c)
	if b, ok := fn.(*ssa.Builtin); ok {
		return fr.builtin(b, c, args)
	}
	return fr.in.callValue(fr, fn, args)
}

func (fr *frame) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	in := fr.in
	p := in.P
	ib := func(n int) Value { return p.BV(64, uint64(n)) }
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Str:
			return ib(x.Len())
		case Slice:
			if b.Name() == "cap" {
				return ib(cap(x))
			}
			return ib(len(x))
		case Array:
			return ib(len(x))
		case Ptr:
			if at, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return ib(int(at.Elem().Underlying().(*types.Array).Len()))
			}
		case *Map:
			if x == nil {
				return ib(0)
			}
			return ib(x.n)
		}
		sym.Unsupported("len of %T", args[0])
	case "append":
		s, _ := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			if len(y) == 0 {
				return s
			}
			cp := make([]Value, len(y))
			for i := range y {
				cp[i] = copyVal(y[i])
			}
			return Slice(append(s, cp...))
		case *Str:
			for _, t := range in.StrBytes(y) {
				s = append(s, t)
			}
			return s
		case nil:
			return s
		}
		sym.Unsupported("append %T", args[1])
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			n := min(len(d), len(y))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(y[i])
			}
			copy(d, tmp)
			return ib(n)
		case *Str:
			bs := in.StrBytes(y)
			n := min(len(d), len(bs))
			for i := 0; i < n; i++ {
				d[i] = bs[i]
			}
			return ib(n)
		}
	case "delete":
		if m := args[0].(*Map); m != nil {
			in.mapDel(m, args[1])
		}
		return Tuple(nil)
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				*x = *newMap()
			}
		case Slice:
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = in.Zero(el)
			}
		}
		return Tuple(nil)
	case "panic":
		panic(&GoPanic{V: args[0]})
	case "recover":
		if f, ok := in.Tag["panicking"].(*frame); ok && f != nil && f.panicked != nil {
			g := f.panicked
			f.panicked = nil
			if g.RT != "" {
				return Iface{types.Typ[types.String], in.str("runtime error: " + g.RT)}
			}
			if v, ok := g.V.(Iface); ok {
				return v
			}
			return Iface{}
		}
		return Iface{}
	case "print", "println":
		return Tuple(nil)
	case "min", "max":
		r := args[0]
		bi, _ := basic(c.Args[0].Type())
		if bi.float || bi.w == 0 {
			sym.Unsupported("min/max kind")
		}
		for _, a := range args[1:] {
			x, y := r.(*sym.Term), a.(*sym.Term)
			var lt *sym.Term
			if bi.signed {
				lt = p.Slt(x, y)
			} else {
				lt = p.Ult(x, y)
			}
			if b.Name() == "min" {
				r = p.Ite(lt, x, y)
			} else {
				r = p.Ite(lt, y, x)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if q, ok := args[0].(Ptr); ok && q == nil {
			nilDeref()
		}
		return args[0]
	case "String": // unsafe.String
		n := in.concreteInt(args[1])
		_ = n
	case "Slice", "SliceData", "StringData", "Add":
	}
	sym.Unsupported("builtin %s", b.Name())
	return nil
}
