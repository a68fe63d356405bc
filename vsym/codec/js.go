package codec

import (
	_ "embed"
	"fmt"
	"slices"
	"strings"

	"vsym/dyn"
	"vsym/sym"
	"vsym/wire"
)

//go:embed scripts/jsast.mjs
var jsASTScript string

//go:embed scripts/jsdrv.mjs
var jsDriver string

func init() {
	Backends["commonjs"] = Backend{LoadJS, ReplayJS}
	Backends["esmodule"] = Backend{LoadJS, ReplayJS}
}

func LoadJS(e *Env, jobs []*Job) error {
	trees, files, err := loadTrees(e, jobs, ".js", "jsast.mjs", jsASTScript, "node", "@")
	if err != nil {
		return err
	}
	for _, j := range jobs {
		if trees[j] == nil {
			continue
		}
		// the module body must execute; its state holds no terms
		var st sym.Stats
		x := sym.NewExec(&st, 1000)
		var mod *dyn.JsMod
		x.Run(func(p *sym.Path) {
			m, err := dyn.NewJs(trees[j], p)
			if err != nil {
				j.Err = err.Error()
				return
			}
			mod = m
		})
		incon := x.Incon
		x.Close()
		if j.Err != "" {
			continue
		}
		if mod == nil {
			return fmt.Errorf("JavaScript module of job %s: %v", j.ID, incon)
		}
		j.Prog = &jsProg{mod, files[j], slices.Contains(j.Opts, "-compat")}
	}
	return nil
}

type jsProg struct {
	mod    *dyn.JsMod
	file   string
	compat bool
}

type jsSession struct {
	*jsProg
	m    *dyn.M
	p    *sym.Path
	trap string
}

func (g *jsProg) Session(p *sym.Path) Session {
	return &jsSession{jsProg: g, m: dyn.NewM(p), p: p}
}

// buf makes the buffer object holding b: a typed array, or with -compat an
// array of numbers.
func (s *jsSession) buf(b []*sym.Term) dyn.Value {
	if !s.compat {
		return newView(b, 0, "Uint8Array")
	}
	l := &dyn.List{}
	for _, t := range b {
		l.E = append(l.E, s.m.FromU(t))
	}
	return l
}

// bytes reads a buffer object; an element that is no byte sets the reason.
func (s *jsSession) bytes(v dyn.Value) (b []*sym.Term, why string) {
	switch w := v.(type) {
	case *dyn.View:
		if !s.compat {
			return w.Terms(), ""
		}
	case *dyn.List:
		if !s.compat && len(w.E) > 0 {
			break
		}
		for _, e := range w.E {
			e = s.m.Pick(e)
			if !s.m.IsInt(e) {
				return nil, fmt.Sprintf("buffer element is %T", e)
			}
			t := s.m.Term(e)
			x := s.p.Sext(t, max(t.W, 9))
			if !s.p.Branch(s.p.Eq(s.p.Extract(x, x.W-1, 8), s.p.BV(x.W-8, 0))) {
				return nil, "buffer element is no byte"
			}
			b = append(b, s.p.Extract(x, 7, 0))
		}
		return b, ""
	}
	return nil, fmt.Sprintf("buffer is %T", v)
}

func (s *jsSession) Funcs() map[string]int { return s.m.Called }
func (s *jsSession) GetTrap() string       { return s.trap }

// find looks a class or an enum up in the exported namespace.
func (s *jsSession) find(name string, fn bool) *dyn.Obj {
	seen := map[*dyn.Obj]bool{}
	var walk func(o *dyn.Obj) *dyn.Obj
	walk = func(o *dyn.Obj) *dyn.Obj {
		if o == nil || seen[o] {
			return nil
		}
		seen[o] = true
		for _, k := range o.Keys {
			v, ok := (*o.F[k]).(*dyn.Obj)
			if !ok || k == "prototype" || Norm(k) != Norm(name) {
				continue
			}
			if _, proto := v.F["prototype"]; fn == (v.Fn != nil && proto) {
				return v
			}
		}
		for _, k := range o.Keys {
			if v, ok := (*o.F[k]).(*dyn.Obj); ok && k != "prototype" {
				if r := walk(v); r != nil {
					return r
				}
			}
		}
		return nil
	}
	root, _ := s.mod.Root.(*dyn.Obj)
	r := walk(root)
	if r == nil {
		sym.Unsupported("javascript: no %s exported", name)
	}
	return r
}

func (s *jsSession) New(st *wire.Struct) Obj {
	var o dyn.Value
	if r := s.m.Catch(func() { o = s.m.JsNew(s.find(st.Name, true), nil) }); r != nil {
		sym.Unsupported("javascript: constructing %s throws %s %s", st.Name, r.Class, r.Msg)
	}
	return o
}

func (s *jsSession) attr(o *dyn.Obj, name string) string {
	for p := o; p != nil; p = p.Proto {
		for _, k := range p.Keys {
			if v, ok := (*p.F[k]).(*dyn.Obj); Norm(k) == Norm(name) && !(ok && v.Fn != nil) {
				return k
			}
		}
		for k := range p.Acc {
			if Norm(k) == Norm(name) {
				return k
			}
		}
	}
	return name
}

func (s *jsSession) Set(o Obj, st *wire.Struct, f *wire.Field, v *wire.Val) {
	x := o.(*dyn.Obj)
	val := s.in(f, v)
	if r := s.m.Catch(func() { s.m.JsPut(x, s.attr(x, f.Name), val) }); r != nil {
		sym.Unsupported("javascript: setting %s throws %s %s", f.Name, r.Class, r.Msg)
	}
}

func (s *jsSession) in(f *wire.Field, v *wire.Val) dyn.Value {
	if f.N > 0 {
		l := &dyn.List{}
		for _, e := range v.Elems {
			l.E = append(l.E, s.in(elemField(f), e))
		}
		return l
	}
	switch f.Kind {
	case wire.KString:
		return textOf(s.p, v.B)
	case wire.KBytes:
		return s.buf(v.B)
	case wire.KStruct:
		o := s.New(f.Struct)
		SetAll(s, o, f.Struct, v)
		return o
	case wire.KBool:
		return s.m.MkBool(boolTerm(s.p, v.T))
	case wire.KF32:
		return s.m.MkNum(s.p.UF("f32.to.f64", 64, v.T))
	case wire.KF64:
		return s.m.MkNum(v.T)
	case wire.KEnum:
		return s.m.FromU(v.T)
	}
	i := dynInt(s.m, f, v.T)
	if f.Kind.Width() == 64 {
		return dyn.Big{V: i}
	}
	return i
}

func (s *jsSession) Get(o Obj, st *wire.Struct, f *wire.Field) *wire.Val {
	x := o.(*dyn.Obj)
	var v dyn.Value
	if r := s.m.Catch(func() { v = s.m.JsGetProp(x, s.attr(x, f.Name)) }); r != nil {
		s.trap = r.Class + " " + r.Msg
		return &wire.Val{}
	}
	return s.out(f, v)
}

func (s *jsSession) bad(f *wire.Field, v dyn.Value) *wire.Val {
	if s.trap == "" {
		s.trap = fmt.Sprintf("field %s holds %T", f.Name, v)
	}
	return &wire.Val{T: s.p.BV(max(1, f.StoreBits()), 0)}
}

func (s *jsSession) out(f *wire.Field, v dyn.Value) *wire.Val {
	if f.N > 0 {
		r := &wire.Val{}
		l, ok := v.(*dyn.List)
		if !ok || len(l.E) < f.N {
			return s.bad(f, v)
		}
		for _, e := range l.E[:f.N] {
			r.Elems = append(r.Elems, s.out(elemField(f), e))
		}
		return r
	}
	switch f.Kind {
	case wire.KString:
		b, ok := utf8Of(s.m, v)
		if !ok {
			return s.bad(f, v)
		}
		return &wire.Val{B: b}
	case wire.KBytes:
		b, why := s.bytes(v)
		if why != "" {
			return s.bad(f, v)
		}
		return &wire.Val{B: b}
	case wire.KStruct:
		o, ok := v.(*dyn.Obj)
		if !ok {
			return s.bad(f, v)
		}
		return GetAll(s, o, f.Struct)
	case wire.KBool:
		switch x := s.m.Pick(v).(type) {
		case bool:
			return &wire.Val{T: s.p.Bool(x)}
		case *sym.Term:
			return &wire.Val{T: x}
		case int64, dyn.Int:
			return &wire.Val{T: s.m.Wide(x, 9)} // a number where a truth value is documented
		}
		return s.bad(f, v)
	case wire.KF32, wire.KF64:
		t, ok := s.m.FltTerm(s.m.Pick(v))
		if !ok {
			return s.bad(f, v)
		}
		if f.Kind == wire.KF32 {
			t = f32of(s.p, t)
		}
		return &wire.Val{T: t}
	case wire.KEnum:
		x := s.m.Lift(v, func(v dyn.Value) dyn.Value {
			switch y := v.(type) {
			case string:
				if c, ok := s.find(f.Enum.Name, false).F[y]; ok {
					return *c
				}
				return int64(-1)
			case dyn.Undef:
				return int64(-1) // no member has this number
			}
			return v
		})
		if !s.m.IsInt(x) {
			return s.bad(f, v)
		}
		return &wire.Val{T: dynScalar(s.m, f, x)}
	}
	x := s.m.Pick(v)
	if b, ok := x.(dyn.Big); ok != (f.Kind.Width() == 64) {
		return s.bad(f, v)
	} else if ok {
		x = b.V
	}
	if !s.m.IsInt(x) {
		return s.bad(f, v)
	}
	return &wire.Val{T: dynScalar(s.m, f, x)}
}

func (s *jsSession) run(f func() dyn.Value) (dyn.Value, Res) {
	var v dyn.Value
	var r Res
	if e := s.m.Catch(func() { v = f() }); e != nil {
		r.Exc = e.Class + " " + e.Msg
		return nil, r
	}
	if s.m.IsInt(v) {
		r.Ret = clamp(s.m, v)
	}
	return v, r
}

func (s *jsSession) num(v dyn.Value, r *Res) {
	if r.Exc == "" && r.Ret == nil {
		r.Exc = fmt.Sprintf("result is %T, not an integer", v)
	}
}

func (s *jsSession) call(o Obj, name string, a ...dyn.Value) dyn.Value {
	return s.m.JsCallMethod(o.(*dyn.Obj), name, a)
}

// after records the buffer after a call.
func (s *jsSession) after(b dyn.Value, r *Res) {
	var why string
	if r.Buf, why = s.bytes(b); why != "" && r.Exc == "" {
		r.Exc = why
	}
}

func (s *jsSession) Encode(o Obj, st *wire.Struct, buf []*sym.Term, start int) Res {
	b := s.buf(buf)
	v, r := s.run(func() dyn.Value { return s.call(o, "encode", b, int64(start)) })
	s.num(v, &r)
	s.after(b, &r)
	return r
}

func (s *jsSession) EncodeFresh(o Obj, st *wire.Struct) (Res, bool) {
	v, r := s.run(func() dyn.Value { return s.call(o, "encode") })
	if r.Exc == "" {
		s.after(v, &r)
		r.Ret = s.p.BV(64, uint64(len(r.Buf)))
	}
	return r, true
}

func (s *jsSession) EncodeSize(o Obj, st *wire.Struct) Res {
	v, r := s.run(func() dyn.Value { return s.call(o, "encode_size") })
	s.num(v, &r)
	return r
}

func (s *jsSession) DecodeSize(st *wire.Struct, buf []*sym.Term, start int) Res {
	v, r := s.run(func() dyn.Value {
		return s.call(s.find(st.Name, true), "decode_size", s.buf(buf), int64(start))
	})
	s.num(v, &r)
	return r
}

func (s *jsSession) decode(o Obj, b dyn.Value, start int) Res {
	v, r := s.run(func() dyn.Value { return s.call(o, "decode", b, int64(start)) })
	s.num(v, &r)
	return r
}

func (s *jsSession) Decode(o Obj, st *wire.Struct, buf []*sym.Term, start int) Res {
	b := s.buf(buf)
	r := s.decode(o, b, start)
	s.after(b, &r)
	return r
}

func (s *jsSession) CallGet(o Obj, st *wire.Struct, m *wire.Method) Res {
	x := o.(*dyn.Obj)
	v, r := s.run(func() dyn.Value { return s.m.JsGetProp(x, s.attr(x, m.Name)) })
	if r.Exc == "" {
		r.Ret = s.out(&wire.Field{Name: m.Name, Kind: m.Kind}, v).T
		if s.trap != "" {
			r.Exc = s.trap
		}
	}
	return r
}

func (s *jsSession) CallSet(o Obj, st *wire.Struct, m *wire.Method, arg *sym.Term) Res {
	x := o.(*dyn.Obj)
	_, r := s.run(func() dyn.Value {
		s.m.JsPut(x, s.attr(x, m.Name), s.in(&wire.Field{Name: m.Name, Kind: m.Kind}, &wire.Val{T: arg}))
		return nil
	})
	return r
}

func (s *jsSession) NewBuf(buf []*sym.Term) any { return s.buf(buf) }

func (s *jsSession) FieldOwn(o Obj, st *wire.Struct, f *wire.Field, h any) {
	x := o.(*dyn.Obj)
	s.m.JsPut(x, s.attr(x, f.Name), h)
}

func (s *jsSession) DecodeKeep(o Obj, st *wire.Struct, h any, start int) Res {
	return s.decode(o, h, start)
}

func (s *jsSession) BufSet(h any, i int, v *sym.Term) {
	switch b := h.(type) {
	case *dyn.View:
		b.Buf.B[b.Off+i] = v
	case *dyn.List:
		b.E[i] = s.m.FromU(v)
	}
}

func (s *jsSession) BufGet(h any, i int) *sym.Term {
	b, why := s.bytes(h)
	if why != "" {
		sym.Unsupported("javascript: %s", why)
	}
	return b[i]
}

func (s *jsSession) FieldByteSet(o Obj, st *wire.Struct, f *wire.Field, i int, v *sym.Term) {
	x := o.(*dyn.Obj)
	s.BufSet(s.m.JsGetProp(x, s.attr(x, f.Name)), i, v)
}

// ReplayJS runs operations on the real generated JavaScript code.
func ReplayJS(e *Env, ops []*Op) ([][]string, error) {
	p, err := writeOps(e, "jsops", ops, func(o *Op) string { return o.Job.Prog.(*jsProg).file })
	if err != nil {
		return nil, err
	}
	out, err := runScript(e, "jsdrv.mjs", jsDriver, "", "node", "@", p)
	if err != nil {
		return nil, err
	}
	r := SplitOutput(string(out), len(ops))
	for i := range r {
		if len(r[i]) > 0 && strings.HasPrefix(r[i][0], "driver ") {
			return nil, fmt.Errorf("replay driver: %s", r[i][0])
		}
	}
	return r, nil
}
