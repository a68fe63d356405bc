package llvmi

import (
	"fmt"
	"strings"

	"vsym/sym"
)

// Val is a runtime value: *sym.Term (integers and float bits), Ptr, or Agg.
type Val any

type Agg []Val

// Obj is a memory object.
type Obj struct {
	Name  string
	Base  uint64
	B     []any // *sym.Term (8 bit), ptrByte, or nil (uninitialised)
	Freed bool
	RO    bool
}

// Ptr is a pointer value.
type Ptr struct {
	O   *Obj
	F   *Func
	Off *sym.Term // 64 bit
}

type ptrByte struct {
	p Ptr
	i int
}

// Trap is abnormal termination of the modelled code.
type Trap struct{ What string }

// Mach executes functions of a module on one path.
type Mach struct {
	M      *Module
	P      *sym.Path
	glob   map[string]*Obj
	objs   []*Obj
	next   uint64
	Called map[string]int
	depth  int
	fns    map[uint64]*Func
	fnAddr map[*Func]uint64
}

func New(m *Module, p *sym.Path) *Mach {
	return &Mach{M: m, P: p, glob: map[string]*Obj{}, next: 0x100000, Called: map[string]int{}, fns: map[uint64]*Func{}, fnAddr: map[*Func]uint64{}}
}

func trap(f string, a ...any) { panic(Trap{fmt.Sprintf(f, a...)}) }

// Catch runs f and returns the trap it raised, if any.
func (m *Mach) Catch(f func()) (t *Trap) {
	d := m.depth
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(Trap); ok {
				t = &x
				m.depth = d
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// Alloc makes a new object of n bytes.
func (m *Mach) Alloc(name string, n int) *Obj {
	if n > 1<<20 {
		sym.Unsupported("allocation of %d bytes", n)
	}
	o := &Obj{Name: name, Base: m.next, B: make([]any, n)}
	m.next += uint64((n+31)/16*16) + 64
	m.objs = append(m.objs, o)
	return o
}

func (m *Mach) PtrTo(o *Obj, off int) Ptr { return Ptr{O: o, Off: m.P.BV(64, uint64(off))} }
func (m *Mach) null() Ptr                 { return Ptr{Off: m.P.BV(64, 0)} }

// Bytes of an object as terms.
func (m *Mach) Bytes(o *Obj) []*sym.Term {
	r := make([]*sym.Term, len(o.B))
	for i := range o.B {
		r[i] = m.byteAt(o, i)
	}
	return r
}

func (m *Mach) byteAt(o *Obj, i int) *sym.Term {
	switch x := o.B[i].(type) {
	case *sym.Term:
		return x
	case ptrByte:
		return m.P.Extract(m.addr(x.p), 8*x.i+7, 8*x.i)
	}
	t := m.P.Fresh(fmt.Sprintf("uninit.%s.%d", o.Name, i), 8)
	o.B[i] = t
	return t
}

func (m *Mach) addr(p Ptr) *sym.Term {
	if p.F != nil {
		a, ok := m.fnAddr[p.F]
		if !ok {
			a = 0x1000 + uint64(len(m.fnAddr))*16
			m.fnAddr[p.F] = a
			m.fns[a] = p.F
		}
		return m.P.BV(64, a)
	}
	if p.O == nil {
		return p.Off
	}
	return m.P.Add(m.P.BV(64, p.O.Base), p.Off)
}

func (m *Mach) fromAddr(a *sym.Term) Ptr {
	if !a.IsConst() {
		sym.Unsupported("pointer from symbolic integer")
	}
	v := a.V
	if f := m.fns[v]; f != nil {
		return Ptr{F: f, Off: m.P.BV(64, 0)}
	}
	for _, o := range m.objs {
		if v >= o.Base && v <= o.Base+uint64(len(o.B)) {
			return Ptr{O: o, Off: m.P.BV(64, v-o.Base)}
		}
	}
	return Ptr{Off: a}
}

// access checks an access of n bytes and returns a concrete offset.
func (m *Mach) access(p Ptr, n int, what string) int {
	if p.F != nil {
		trap("%s through a function pointer", what)
	}
	if p.O == nil {
		trap("%s through a null or invalid pointer", what)
	}
	if p.O.Freed {
		trap("%s of freed object %s", what, p.O.Name)
	}
	size := len(p.O.B)
	if p.Off.IsConst() {
		if p.Off.V > uint64(size) || p.Off.V+uint64(n) > uint64(size) {
			trap("%s of %d bytes at offset %d of %s (%d bytes)", what, n, int64(p.Off.V), p.O.Name, size)
		}
		return int(p.Off.V)
	}
	if size < n || !m.P.Branch(m.P.Ule(p.Off, m.P.BV(64, uint64(size-n)))) {
		trap("%s of %d bytes outside %s (%d bytes)", what, n, p.O.Name, size)
	}
	return int(m.P.Concretize(p.Off).V)
}

func (m *Mach) load(t *Type, p Ptr) Val {
	t.layout()
	switch t.K {
	case 'a', 'V':
		r := make(Agg, t.N)
		for i := range r {
			r[i] = m.load(t.El, m.plus(p, i*t.El.Size()))
		}
		return r
	case 's':
		r := make(Agg, len(t.Fields))
		for i := range r {
			r[i] = m.load(t.Fields[i], m.plus(p, t.offs[i]))
		}
		return r
	}
	n := t.size
	if t.K == 'i' {
		n = (t.W + 7) / 8
	}
	off := m.access(p, n, "read")
	if pb, ok := p.O.B[off].(ptrByte); ok && n == 8 {
		whole := true
		for i := 0; i < 8; i++ {
			q, ok := p.O.B[off+i].(ptrByte)
			if !ok || q.i != i || q.p != pb.p {
				whole = false
			}
		}
		if whole {
			if t.K == 'p' {
				return pb.p
			}
			return m.addr(pb.p)
		}
	}
	x := m.byteAt(p.O, off)
	for i := 1; i < n; i++ {
		x = m.P.Concat(m.byteAt(p.O, off+i), x)
	}
	if t.K == 'p' {
		if !x.IsConst() {
			return m.lazyPtr(x)
		}
		return m.fromAddr(x)
	}
	if t.K == 'i' && x.W != t.W {
		x = m.P.Extract(x, t.W-1, 0)
	}
	return x
}

// lazyPtr is a pointer of unknown (uninitialised) value.
func (m *Mach) lazyPtr(x *sym.Term) Ptr { return Ptr{Off: x} }

func (m *Mach) plus(p Ptr, n int) Ptr {
	if n == 0 {
		return p
	}
	p.Off = m.P.Add(p.Off, m.P.BV(64, uint64(n)))
	return p
}

func (m *Mach) store(t *Type, v Val, p Ptr) {
	t.layout()
	switch t.K {
	case 'a', 'V':
		for i, e := range v.(Agg) {
			m.store(t.El, e, m.plus(p, i*t.El.Size()))
		}
		return
	case 's':
		for i, e := range v.(Agg) {
			m.store(t.Fields[i], e, m.plus(p, t.offs[i]))
		}
		return
	}
	if q, ok := v.(Ptr); ok {
		off := m.access(p, 8, "write")
		if q.O == nil && q.F == nil {
			for i := 0; i < 8; i++ {
				p.O.B[off+i] = m.P.Extract(q.Off, 8*i+7, 8*i)
			}
			return
		}
		for i := 0; i < 8; i++ {
			p.O.B[off+i] = ptrByte{q, i}
		}
		return
	}
	x := v.(*sym.Term)
	n := t.size
	if t.K == 'i' {
		n = (t.W + 7) / 8
	}
	if x.W < 8*n {
		x = m.P.Zext(x, 8*n)
	}
	off := m.access(p, n, "write")
	if p.O.RO {
		trap("write to constant %s", p.O.Name)
	}
	for i := 0; i < n; i++ {
		p.O.B[off+i] = m.P.Extract(x, 8*i+7, 8*i)
	}
}

func (m *Mach) zero(t *Type) Val {
	t.layout()
	switch t.K {
	case 'a', 'V':
		r := make(Agg, t.N)
		for i := range r {
			r[i] = m.zero(t.El)
		}
		return r
	case 's':
		r := make(Agg, len(t.Fields))
		for i := range r {
			r[i] = m.zero(t.Fields[i])
		}
		return r
	case 'p':
		return m.null()
	case 'f':
		return m.P.BV(32, 0)
	case 'd':
		return m.P.BV(64, 0)
	case 'i':
		return m.P.BV(t.W, 0)
	}
	return nil
}

func (m *Mach) undef(t *Type) Val {
	switch t.K {
	case 'a', 'V':
		r := make(Agg, t.N)
		for i := range r {
			r[i] = m.undef(t.El)
		}
		return r
	case 's':
		r := make(Agg, len(t.Fields))
		for i := range r {
			r[i] = m.undef(t.Fields[i])
		}
		return r
	case 'p':
		return m.null()
	case 'f':
		return m.P.Fresh("undef", 32)
	case 'd':
		return m.P.Fresh("undef", 64)
	case 'i':
		return m.P.Fresh("undef", t.W)
	}
	return nil
}

func (m *Mach) globalPtr(n string) Ptr {
	if a, ok := m.M.Alias[n]; ok {
		n = a
	}
	if f := m.M.Funcs[n]; f != nil {
		return Ptr{F: f, Off: m.P.BV(64, 0)}
	}
	if o := m.glob[n]; o != nil {
		return Ptr{O: o, Off: m.P.BV(64, 0)}
	}
	g := m.M.Globals[n]
	if g == nil {
		// external function or object
		return Ptr{F: &Func{Name: n}, Off: m.P.BV(64, 0)}
	}
	o := m.Alloc("@"+n, g.T.Size())
	m.glob[n] = o
	if g.Init != nil {
		m.store(g.T, m.constVal(g.Init), Ptr{O: o, Off: m.P.BV(64, 0)})
		for i := range o.B {
			if o.B[i] == nil {
				o.B[i] = m.P.BV(8, 0)
			}
		}
	}
	if g.Init == nil && n == "__libc_single_threaded" {
		o.B[0] = m.P.BV(8, 1)
	}
	o.RO = g.Const
	return Ptr{O: o, Off: m.P.BV(64, 0)}
}

func (m *Mach) constVal(o *Opnd) Val { return m.get(nil, o) }

func (m *Mach) get(regs []Val, o *Opnd) Val {
	switch o.K {
	case 'l':
		v := regs[o.slot]
		if v == nil {
			sym.Unsupported("use of unset value %s", o.Name)
		}
		return v
	case 'g':
		return m.globalPtr(o.Name)
	case 'c':
		if o.T.W > 64 && o.Neg {
			return m.P.Sext(m.P.BV(64, o.V), o.T.W)
		}
		if o.T.W > 64 {
			return m.P.Zext(m.P.BV(64, o.V), o.T.W)
		}
		return m.P.BV(o.T.W, o.V)
	case 'n':
		return m.null()
	case 'u':
		return m.undef(o.T)
	case 'z':
		return m.zero(o.T)
	case 'F':
		if o.T.K == 'f' {
			return m.P.BV(32, o.V)
		}
		return m.P.BV(64, o.V)
	case 'S':
		r := make(Agg, len(o.Name))
		for i := range r {
			r[i] = m.P.BV(8, uint64(o.Name[i]))
		}
		return r
	case 'A':
		r := make(Agg, len(o.L))
		for i := range r {
			r[i] = m.get(regs, o.L[i])
		}
		return r
	case 'E':
		switch o.Op {
		case "getelementptr":
			var idx []Val
			for _, x := range o.L[1:] {
				idx = append(idx, m.get(regs, x))
			}
			return m.gep(o.ETy, m.get(regs, o.L[0]).(Ptr), idx)
		case "ptrtoint":
			return m.P.Resize(m.addr(m.get(regs, o.L[0]).(Ptr)), o.ETy.W, false)
		case "inttoptr":
			return m.fromAddr(m.P.Resize(m.get(regs, o.L[0]).(*sym.Term), 64, false))
		case "bitcast":
			return m.get(regs, o.L[0])
		case "add":
			return m.P.Add(m.get(regs, o.L[0]).(*sym.Term), m.get(regs, o.L[1]).(*sym.Term))
		case "sub":
			return m.P.Sub(m.get(regs, o.L[0]).(*sym.Term), m.get(regs, o.L[1]).(*sym.Term))
		}
	}
	sym.Unsupported("operand %c %s", o.K, o.Op)
	return nil
}

func (m *Mach) gep(t *Type, p Ptr, idx []Val) Ptr {
	c := m.P
	off := p.Off
	add := func(i *sym.Term, sz int) {
		off = c.Add(off, c.Mul(c.Resize(i, 64, true), c.BV(64, uint64(sz))))
	}
	add(idx[0].(*sym.Term), t.Size())
	for _, iv := range idx[1:] {
		i := iv.(*sym.Term)
		t.layout()
		switch t.K {
		case 's':
			if !i.IsConst() {
				sym.Unsupported("symbolic struct index")
			}
			off = c.Add(off, c.BV(64, uint64(t.offs[i.V])))
			t = t.Fields[i.V]
		case 'a', 'V':
			t = t.El
			add(i, t.Size())
		default:
			sym.Unsupported("gep into %c", t.K)
		}
	}
	p.Off = off
	return p
}

// Call runs a function.
func (m *Mach) Call(name string, args ...Val) Val {
	if a, ok := m.M.Alias[name]; ok {
		name = a
	}
	f := m.M.Funcs[name]
	if f == nil {
		return m.native(name, args)
	}
	return m.call(f, args)
}

func (m *Mach) call(f *Func, args []Val) Val {
	if f.mod == nil || m.M.Funcs[f.Name] == nil {
		return m.native(f.Name, args)
	}
	if err := f.load(); err != nil {
		sym.Unsupported("%v", err)
	}
	m.Called[f.Name]++
	m.depth++
	if m.depth > 200 {
		trap("stack overflow")
	}
	defer func() { m.depth-- }()
	regs := make([]Val, f.nslots)
	for i, s := range f.pslots {
		if i < len(args) {
			regs[s] = args[i]
		}
	}
	b := f.entry
	prev := ""
	for {
		next := ""
		// phis in parallel
		np := 0
		for np < len(b.ins) && b.ins[np].op == "phi" {
			np++
		}
		if np > 0 {
			vals := make([]Val, np)
			for i := 0; i < np; i++ {
				in := b.ins[i]
				k := -1
				for j, lb := range in.lab {
					if lb == prev {
						k = j
					}
				}
				if k < 0 {
					sym.Unsupported("phi without edge from %s in %s", prev, f.Name)
				}
				vals[i] = m.get(regs, in.a[k])
			}
			for i := 0; i < np; i++ {
				regs[b.ins[i].dst] = vals[i]
			}
		}
		for _, in := range b.ins[np:] {
			m.P.Step()
			switch in.op {
			case "br":
				if len(in.a) == 0 {
					next = in.lab[0]
				} else if m.cond(m.get(regs, in.a[0])) {
					next = in.lab[0]
				} else {
					next = in.lab[1]
				}
			case "switch":
				v := m.get(regs, in.a[0]).(*sym.Term)
				next = in.lab[0]
				for i, c := range in.cases {
					if m.P.Branch(m.P.Eq(v, m.get(regs, c).(*sym.Term))) {
						next = in.lab[i+1]
						break
					}
				}
			case "ret":
				if len(in.a) == 0 {
					return nil
				}
				return m.get(regs, in.a[0])
			case "unreachable":
				trap("unreachable code reached in %s", f.Name)
			case "call", "invoke":
				fp, ok := m.get(regs, in.a[0]).(Ptr)
				if !ok || fp.F == nil {
					trap("call through an invalid function pointer")
				}
				args := make([]Val, 0, len(in.a)-1)
				for i, a := range in.a[1:] {
					if a.T.K == 'v' {
						args = append(args, nil)
						continue
					}
					v := m.get(regs, a)
					if bv := in.byval[i]; bv != nil {
						o := m.Alloc("byval", bv.Size())
						m.copyBytes(m.PtrTo(o, 0), v.(Ptr), bv.Size())
						v = m.PtrTo(o, 0)
					}
					args = append(args, v)
				}
				r := m.call(fp.F, args)
				if in.dst >= 0 {
					regs[in.dst] = r
				}
				if in.op == "invoke" {
					next = in.lab[0]
				}
			default:
				v := m.step(in, regs)
				if in.dst >= 0 {
					regs[in.dst] = v
				}
			}
		}
		if next == "" {
			sym.Unsupported("block %s of %s falls through", b.name, f.Name)
		}
		prev, b = b.name, f.blocks[next]
		if b == nil {
			sym.Unsupported("no block %s in %s", next, f.Name)
		}
	}
}

func (m *Mach) bit(v Val) *sym.Term { // Bool
	t := v.(*sym.Term)
	if t.W == 0 {
		return t
	}
	return m.P.Eq(t, m.P.BV(1, 1))
}

func (m *Mach) cond(v Val) bool { return m.P.Branch(m.bit(v)) }

func fw(t *Type) string {
	if t.K == 'f' {
		return "f32."
	}
	return "f64."
}

func fbits(t *Type) int {
	if t.K == 'f' {
		return 32
	}
	return 64
}

func (m *Mach) step(in *instr, regs []Val) Val {
	p := m.P
	g := func(i int) Val { return m.get(regs, in.a[i]) }
	tm := func(i int) *sym.Term {
		t, ok := g(i).(*sym.Term)
		if !ok {
			if q, ok := g(i).(Ptr); ok {
				return m.addr(q)
			}
			sym.Unsupported("aggregate operand in %s", in.text)
		}
		return t
	}
	switch in.op {
	case "alloca":
		n := in.ty.Size()
		if len(in.a) > 0 {
			c := p.Concretize(tm(0))
			n *= int(c.V)
		}
		return m.PtrTo(m.Alloc("local", n), 0)
	case "load":
		return m.load(in.ty, g(0).(Ptr))
	case "store":
		m.store(in.a[0].T, g(0), g(1).(Ptr))
		return nil
	case "getelementptr":
		var idx []Val
		for i := 1; i < len(in.a); i++ {
			idx = append(idx, g(i))
		}
		return m.gep(in.ty, g(0).(Ptr), idx)
	case "add", "sub", "mul", "and", "or", "xor", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr":
		return m.arith(in.op, tm(0), tm(1))
	case "fadd", "fsub", "fmul", "fdiv":
		return p.UF(fw(in.ty)+in.op[1:], fbits(in.ty), tm(0), tm(1))
	case "frem":
		if in.ty.K == 'd' {
			return p.UF("f64.rem", 64, tm(0), tm(1))
		}
	case "fneg":
		return p.UF(fw(in.ty)+"neg", fbits(in.ty), tm(0))
	case "freeze":
		return g(0)
	case "icmp":
		return p.BoolToBV(m.icmp(in.pred, g(0), g(1)), 1)
	case "fcmp":
		return p.BoolToBV(m.fcmp(in.pred, in.ty, tm(0), tm(1)), 1)
	case "zext":
		return p.Zext(tm(0), in.ty.W)
	case "sext":
		return p.Sext(tm(0), in.ty.W)
	case "trunc":
		return p.Extract(tm(0), in.ty.W-1, 0)
	case "bitcast":
		return g(0)
	case "ptrtoint":
		return p.Resize(m.addr(g(0).(Ptr)), in.ty.W, false)
	case "inttoptr":
		return m.fromAddr(p.Resize(tm(0), 64, false))
	case "fptosi":
		return p.Extract(p.UF(fw64(in.ty2)+"to.s64", 64, m.toD(in.ty2, tm(0))), in.ty.W-1, 0)
	case "fptoui":
		n := "to.u64"
		if in.ty.W < 64 {
			n = "to.s64"
		}
		return p.Extract(p.UF(fw64(in.ty2)+n, 64, m.toD(in.ty2, tm(0))), in.ty.W-1, 0)
	case "sitofp":
		return p.UF(fw(in.ty)+"from.s64", fbits(in.ty), p.Sext(tm(0), 64))
	case "uitofp":
		if in.a[0].T.W < 64 {
			return p.UF(fw(in.ty)+"from.s64", fbits(in.ty), p.Zext(tm(0), 64))
		}
		return p.UF(fw(in.ty)+"from.u64", fbits(in.ty), p.Zext(tm(0), 64))
	case "fpext":
		return p.UF("f32.to.f64", 64, tm(0))
	case "fptrunc":
		return p.UF("f64.to.f32", 32, tm(0))
	case "select":
		a, b := g(1), g(2)
		c := m.bit(g(0))
		x, ok1 := a.(*sym.Term)
		y, ok2 := b.(*sym.Term)
		if ok1 && ok2 {
			return p.Ite(c, x, y)
		}
		if p.Branch(c) {
			return a
		}
		return b
	case "extractvalue":
		v := g(0)
		for _, i := range in.idx {
			v = v.(Agg)[i]
		}
		return v
	case "insertvalue":
		return insertAt(g(0).(Agg), in.idx, g(1))
	case "atomicrmw":
		q := g(0).(Ptr)
		t := in.a[1].T
		old := m.load(t, q).(*sym.Term)
		v := tm(1)
		switch in.pred {
		case "add":
			v = p.Add(old, v)
		case "sub":
			v = p.Sub(old, v)
		case "xchg":
		default:
			sym.Unsupported("atomicrmw %s", in.pred)
		}
		m.store(t, v, q)
		return old
	case "cmpxchg":
		q := g(0).(Ptr)
		t := in.a[1].T
		old := m.load(t, q).(*sym.Term)
		eq := p.Eq(old, tm(1))
		if p.Branch(eq) {
			m.store(t, g(2), q)
		}
		return Agg{old, p.BoolToBV(eq, 1)}
	case "fence":
		return nil
	case "landingpad", "resume":
		trap("exception")
	}
	sym.Unsupported("LLVM instruction: %s", in.text)
	return nil
}

func fw64(t *Type) string { return "f64." }

func (m *Mach) toD(t *Type, x *sym.Term) *sym.Term {
	if t.K == 'f' {
		return m.P.UF("f32.to.f64", 64, x)
	}
	return x
}

func insertAt(a Agg, idx []int, v Val) Agg {
	r := append(Agg{}, a...)
	if len(idx) == 1 {
		r[idx[0]] = v
	} else {
		r[idx[0]] = insertAt(r[idx[0]].(Agg), idx[1:], v)
	}
	return r
}

func (m *Mach) arith(op string, a, b *sym.Term) *sym.Term {
	p := m.P
	switch op {
	case "add":
		return p.Add(a, b)
	case "sub":
		return p.Sub(a, b)
	case "mul":
		return p.Mul(a, b)
	case "and":
		return p.And(a, b)
	case "or":
		return p.Or(a, b)
	case "xor":
		return p.Xor(a, b)
	case "shl", "lshr", "ashr":
		// a shift by the width or more is undefined
		if !p.Branch(p.Ult(b, p.BV(b.W, uint64(b.W)))) {
			trap("shift by %v of a %d-bit value", b, b.W)
		}
		switch op {
		case "shl":
			return p.Shl(a, b)
		case "lshr":
			return p.Lshr(a, b)
		}
		return p.Ashr(a, b)
	}
	if p.Branch(p.Eq(b, p.BV(b.W, 0))) {
		trap("division by zero")
	}
	switch op {
	case "udiv":
		return p.UDiv(a, b)
	case "urem":
		return p.URem(a, b)
	case "sdiv":
		if p.Branch(m.minDiv(a, b)) {
			trap("signed division overflow")
		}
		return p.SDiv(a, b)
	}
	if p.Branch(m.minDiv(a, b)) {
		trap("signed division overflow")
	}
	return p.SRem(a, b)
}

func (m *Mach) minDiv(a, b *sym.Term) *sym.Term {
	p := m.P
	min := p.Shl(p.BV(a.W, 1), p.BV(a.W, uint64(a.W-1)))
	return p.And(p.Eq(a, min), p.Eq(b, p.Not(p.BV(b.W, 0))))
}

func (m *Mach) icmp(pred string, x, y Val) *sym.Term {
	p := m.P
	px, ok1 := x.(Ptr)
	py, ok2 := y.(Ptr)
	var a, b *sym.Term
	if ok1 || ok2 {
		if ok1 && ok2 && px.O == py.O && px.F == nil && py.F == nil {
			a, b = px.Off, py.Off
		} else if ok1 && ok2 && px.O != py.O && (px.O == nil && px.Off.IsConst() && px.Off.V == 0 || py.O == nil && py.Off.IsConst() && py.Off.V == 0) {
			// a pointer into an object against null
			switch pred {
			case "eq":
				return p.False()
			case "ne":
				return p.True()
			}
			a, b = m.addr(px), m.addr(py)
		} else {
			if ok1 {
				a = m.addr(px)
			} else {
				a = x.(*sym.Term)
			}
			if ok2 {
				b = m.addr(py)
			} else {
				b = y.(*sym.Term)
			}
		}
	} else {
		a, b = x.(*sym.Term), y.(*sym.Term)
	}
	switch pred {
	case "eq":
		return p.Eq(a, b)
	case "ne":
		return p.Ne(a, b)
	case "ult":
		return p.Ult(a, b)
	case "ule":
		return p.Ule(a, b)
	case "ugt":
		return p.Ugt(a, b)
	case "uge":
		return p.Uge(a, b)
	case "slt":
		return p.Slt(a, b)
	case "sle":
		return p.Sle(a, b)
	case "sgt":
		return p.Sgt(a, b)
	case "sge":
		return p.Sge(a, b)
	}
	sym.Unsupported("icmp %s", pred)
	return nil
}

func (m *Mach) fcmp(pred string, t *Type, a, b *sym.Term) *sym.Term {
	p := m.P
	u := func(op string, x, y *sym.Term) *sym.Term { return p.UF(fw(t)+op, 0, x, y) }
	switch pred {
	case "oeq":
		return u("eq", a, b)
	case "une":
		return p.Not(u("eq", a, b))
	case "olt":
		return u("lt", a, b)
	case "ole":
		return u("le", a, b)
	case "ogt":
		return u("lt", b, a)
	case "oge":
		return u("le", b, a)
	case "ult":
		return p.Not(u("le", b, a))
	case "ule":
		return p.Not(u("lt", b, a))
	case "ugt":
		return p.Not(u("le", a, b))
	case "uge":
		return p.Not(u("lt", a, b))
	}
	sym.Unsupported("fcmp %s", pred)
	return nil
}

func (m *Mach) copyBytes(dst, src Ptr, n int) {
	if n == 0 {
		return
	}
	s := m.access(src, n, "read")
	d := m.access(dst, n, "write")
	tmp := make([]any, n)
	for i := range tmp {
		if src.O.B[s+i] == nil {
			m.byteAt(src.O, s+i)
		}
		tmp[i] = src.O.B[s+i]
	}
	copy(dst.O.B[d:], tmp)
}

// native models library functions.
func (m *Mach) native(name string, a []Val) Val {
	p := m.P
	size := func(v Val) int {
		t := v.(*sym.Term)
		if !t.IsConst() {
			t = p.Concretize(t)
		}
		if t.V > 1<<20 {
			trap("%s with size %d", name, t.V)
		}
		return int(t.V)
	}
	switch {
	case strings.HasPrefix(name, "llvm.memcpy"), strings.HasPrefix(name, "llvm.memmove"), name == "memcpy", name == "memmove":
		n := m.sizedCopy(a[0].(Ptr), a[1].(Ptr), a[2].(*sym.Term))
		m.copyBytes(a[0].(Ptr), a[1].(Ptr), n)
		return a[0]
	case strings.HasPrefix(name, "llvm.memset"), name == "memset":
		n := size(a[2])
		if n > 0 {
			q := a[0].(Ptr)
			off := m.access(q, n, "write")
			for i := 0; i < n; i++ {
				q.O.B[off+i] = p.Extract(a[1].(*sym.Term), 7, 0)
			}
		}
		return a[0]
	case strings.HasPrefix(name, "llvm.lifetime"), strings.HasPrefix(name, "llvm.dbg"), strings.HasPrefix(name, "llvm.assume"), strings.HasPrefix(name, "llvm.experimental"):
		return nil
	case strings.HasPrefix(name, "llvm.expect"):
		return a[0]
	case strings.HasPrefix(name, "llvm.is.constant"):
		return p.BV(1, 0)
	case strings.HasPrefix(name, "llvm.umin."), strings.HasPrefix(name, "llvm.umax."), strings.HasPrefix(name, "llvm.smin."), strings.HasPrefix(name, "llvm.smax."):
		x, y := a[0].(*sym.Term), a[1].(*sym.Term)
		var lt *sym.Term
		if name[5] == 'u' {
			lt = p.Ult(x, y)
		} else {
			lt = p.Slt(x, y)
		}
		if name[6:9] == "min" {
			return p.Ite(lt, x, y)
		}
		return p.Ite(lt, y, x)
	case strings.HasPrefix(name, "llvm.bswap."):
		x := a[0].(*sym.Term)
		r := p.Extract(x, 7, 0)
		for i := 8; i < x.W; i += 8 {
			r = p.Concat(r, p.Extract(x, i+7, i))
		}
		return r
	case strings.HasPrefix(name, "llvm.fabs.f64"):
		return p.And(a[0].(*sym.Term), p.BV(64, 1<<63-1))
	case strings.HasPrefix(name, "llvm.fmuladd.f64"):
		return p.UF("f64.add", 64, p.UF("f64.mul", 64, a[0].(*sym.Term), a[1].(*sym.Term)), a[2].(*sym.Term))
	case strings.HasPrefix(name, "llvm.fmuladd.f32"):
		return p.UF("f32.add", 32, p.UF("f32.mul", 32, a[0].(*sym.Term), a[1].(*sym.Term)), a[2].(*sym.Term))
	case strings.HasPrefix(name, "llvm.pow.f64"), name == "pow":
		return p.UF("f64.pow", 64, a[0].(*sym.Term), a[1].(*sym.Term))
	case name == "fmod":
		return p.UF("f64.rem", 64, a[0].(*sym.Term), a[1].(*sym.Term))
	case strings.HasPrefix(name, "llvm.trap"), name == "abort", name == "_ZSt9terminatev":
		trap("%s", name)
	case name == "malloc", name == "_Znwm", name == "_Znam":
		return m.PtrTo(m.Alloc("heap", size(a[0])), 0)
	case name == "calloc":
		o := m.Alloc("heap", size(a[0])*size(a[1]))
		for i := range o.B {
			o.B[i] = p.BV(8, 0)
		}
		return m.PtrTo(o, 0)
	case name == "free", name == "_ZdlPv", name == "_ZdaPv", name == "_ZdlPvm", name == "_ZdaPvm":
		if q := a[0].(Ptr); q.O != nil {
			if q.O.Freed {
				trap("double free")
			}
			q.O.Freed = true
		}
		return nil
	case name == "strlen":
		q := a[0].(Ptr)
		for n := 0; ; n++ {
			b := m.load(ints[8], m.plus(q, n)).(*sym.Term)
			if p.Branch(p.Eq(b, p.BV(8, 0))) {
				return p.BV(64, uint64(n))
			}
		}
	case name == "strnlen":
		q := a[0].(Ptr)
		lim := size(a[1])
		for n := 0; ; n++ {
			if n >= lim {
				return p.BV(64, uint64(n))
			}
			b := m.load(ints[8], m.plus(q, n)).(*sym.Term)
			if p.Branch(p.Eq(b, p.BV(8, 0))) {
				return p.BV(64, uint64(n))
			}
		}
	case name == "memchr":
		q := a[0].(Ptr)
		c := p.Extract(a[1].(*sym.Term), 7, 0)
		lim := a[2].(*sym.Term)
		for n := 0; ; n++ {
			if !p.Branch(p.Ult(p.BV(64, uint64(n)), lim)) {
				return m.null()
			}
			b := m.load(ints[8], m.plus(q, n)).(*sym.Term)
			if p.Branch(p.Eq(b, c)) {
				return m.plus(q, n)
			}
		}
	case name == "memcmp" || name == "bcmp" || name == "strcmp" || name == "strncmp":
		x, y := a[0].(Ptr), a[1].(Ptr)
		lim := 1 << 20
		if len(a) > 2 {
			lim = size(a[2])
		}
		for n := 0; n < lim; n++ {
			u := m.load(ints[8], m.plus(x, n)).(*sym.Term)
			v := m.load(ints[8], m.plus(y, n)).(*sym.Term)
			if !p.Branch(p.Eq(u, v)) {
				return p.Ite(p.Ult(u, v), p.SBV(32, -1), p.BV(32, 1))
			}
			if name[0] == 's' && p.Branch(p.Eq(u, p.BV(8, 0))) {
				return p.BV(32, 0)
			}
		}
		return p.BV(32, 0)
	case strings.Contains(name, "__throw_"), name == "__cxa_throw", name == "__cxa_rethrow", name == "__cxa_pure_virtual":
		trap("exception %s", name)
	case name == "__cxa_begin_catch" || name == "__cxa_end_catch" || name == "__cxa_atexit":
		return p.BV(32, 0)
	case name == "__cxa_guard_acquire":
		return p.BV(32, 1)
	}
	sym.Unsupported("external function %s", name)
	return nil
}

// sizedCopy bounds a copy length by the objects before concretizing it.
func (m *Mach) sizedCopy(d, s Ptr, n *sym.Term) int {
	if n.IsConst() {
		if n.V > 1<<20 {
			trap("copy of %d bytes", n.V)
		}
		return int(n.V)
	}
	for _, q := range []Ptr{s, d} {
		if q.O == nil {
			if m.P.Branch(m.P.Eq(n, m.P.BV(64, 0))) {
				return 0
			}
			trap("copy through an invalid pointer")
		}
		room := m.P.Sub(m.P.BV(64, uint64(len(q.O.B))), q.Off)
		if !m.P.Branch(m.P.Ule(n, room)) {
			trap("copy outside %s (%d bytes)", q.O.Name, len(q.O.B))
		}
	}
	return int(m.P.Concretize(n).V)
}

// LoadByte and StoreByte access memory through a pointer value.
func (m *Mach) LoadByte(p Val, i int) *sym.Term {
	return m.load(ints[8], m.plus(p.(Ptr), i)).(*sym.Term)
}

func (m *Mach) StoreByte(p Val, i int, v *sym.Term) { m.store(ints[8], v, m.plus(p.(Ptr), i)) }
