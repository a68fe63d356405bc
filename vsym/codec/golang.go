package codec

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/ssa"
	"vsym/goi"
	"vsym/sym"
	"vsym/wire"
)

// LoadGo loads the generated Go packages of all jobs at once.
func LoadGo(e *Env, jobs []*Job) error {
	root := filepath.Join(e.Scratch, "go")
	if err := os.WriteFile(filepath.Join(root, "go.mod"), []byte("module gen\n\ngo 1.21\n"), 0o644); err != nil {
		return err
	}
	pr, bad, err := goi.LoadTolerant(root, []string{"GOFLAGS=-mod=mod", "GOWORK=off"}, "./...")
	if err != nil {
		return err
	}
	pr.InitFor = func(path string) bool { return len(path) > 4 && path[:4] == "gen/" || path == "errors" }
	for _, j := range jobs {
		if msg, ok := bad["gen/"+j.ID+"/"+j.Unit.Pkg]; ok {
			j.Err = "generated Go does not compile: " + msg
			continue
		}
		pk := pr.Pkgs["gen/"+j.ID+"/"+j.Unit.Pkg]
		if pk == nil {
			return fmt.Errorf("generated Go package of job %s not found", j.ID)
		}
		j.Prog = &goProg{pr, pk}
	}
	return nil
}

type goProg struct {
	pr  *goi.Program
	pkg *ssa.Package
}

type goSession struct {
	*goProg
	in *goi.Interp
	p  *sym.Path
}

func (g *goProg) Session(p *sym.Path) Session { return &goSession{g, goi.New(g.pr, p), p} }

func (g *goProg) typ(st *wire.Struct) *types.Named {
	for n, m := range g.pkg.Members {
		if t, ok := m.(*ssa.Type); ok && Norm(n) == Norm(st.Name) {
			return t.Type().(*types.Named)
		}
	}
	panic("go: no type " + st.Name)
}

func (s *goSession) Funcs() map[string]int { return s.in.Called }

func (s *goSession) New(st *wire.Struct) Obj {
	p := new(goi.Value)
	*p = s.in.Zero(s.typ(st))
	return p
}

func fieldIndex(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if Norm(st.Field(i).Name()) == Norm(name) {
			return i
		}
	}
	return -1
}

func (s *goSession) Set(o Obj, st *wire.Struct, f *wire.Field, v *wire.Val) {
	t := s.typ(st)
	i := fieldIndex(t, f.Name)
	if i < 0 {
		if f.Const != "" {
			return
		}
		panic("go: no field " + f.Name)
	}
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	(*o.(goi.Ptr)).(goi.Struct)[i] = s.toGo(f, ft, v)
}

func (s *goSession) toGo(f *wire.Field, t types.Type, v *wire.Val) goi.Value {
	if f.N > 0 {
		g := *f
		g.N, g.Bits = 0, f.ElemBits()
		el := t.Underlying().(*types.Array).Elem()
		a := make(goi.Array, len(v.Elems))
		for i, e := range v.Elems {
			a[i] = s.toGo(&g, el, e)
		}
		return a
	}
	switch f.Kind {
	case wire.KString:
		return s.in.SymStr(v.B)
	case wire.KBytes:
		r := make(goi.Slice, len(v.B))
		for i := range r {
			r[i] = v.B[i]
		}
		return r
	case wire.KStruct:
		o := s.New(f.Struct)
		SetAll(s, o, f.Struct, v)
		return *o.(goi.Ptr)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && v.T.W > 0 {
		w := map[types.BasicKind]int{types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64}[b.Kind()]
		if w > 0 && w != v.T.W {
			return s.p.Resize(v.T, w, false)
		}
	}
	return v.T
}

func (s *goSession) Get(o Obj, st *wire.Struct, f *wire.Field) *wire.Val {
	i := fieldIndex(s.typ(st), f.Name)
	return s.fromGo(f, (*o.(goi.Ptr)).(goi.Struct)[i])
}

func (s *goSession) fromGo(f *wire.Field, x goi.Value) *wire.Val {
	if f.N > 0 {
		g := *f
		g.N, g.Bits = 0, f.ElemBits()
		v := &wire.Val{}
		for _, e := range x.(goi.Array) {
			v.Elems = append(v.Elems, s.fromGo(&g, e))
		}
		return v
	}
	switch f.Kind {
	case wire.KString:
		return &wire.Val{B: s.in.StrBytes(x.(*goi.Str))}
	case wire.KBytes:
		return &wire.Val{B: terms(x.(goi.Slice))}
	case wire.KStruct:
		p := new(goi.Value)
		*p = x
		return GetAll(s, p, f.Struct)
	}
	return &wire.Val{T: x.(*sym.Term)}
}

func terms(s goi.Slice) []*sym.Term {
	r := make([]*sym.Term, len(s))
	for i := range s {
		r[i] = s[i].(*sym.Term)
	}
	return r
}

func (s *goSession) method(st *wire.Struct, name string) *ssa.Function {
	t := s.typ(st)
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if Norm(ms.At(i).Obj().Name()) == Norm(name) {
			if fn := s.in.FindMethod(types.NewPointer(t), ms.At(i).Obj().(*types.Func)); fn != nil {
				return fn
			}
		}
	}
	panic("go: no method " + name + " on " + st.Name)
}

func (s *goSession) run(f func() goi.Value) Res {
	var r Res
	gp := s.in.Catch(func() {
		v := f()
		if t, ok := v.(*sym.Term); ok {
			if t.W == 0 {
				t = s.p.BoolToBV(t, 8)
			}
			r.Ret = t
		}
		if sl, ok := v.(goi.Slice); ok {
			r.Buf = terms(sl)
		}
	})
	if gp != nil {
		r.Exc = "panic: " + gp.RT
	}
	return r
}

func goBuf(b []*sym.Term) goi.Slice {
	r := make(goi.Slice, len(b))
	for i := range b {
		r[i] = b[i]
	}
	return r
}

func (s *goSession) Encode(o Obj, st *wire.Struct, buf []*sym.Term, start int) Res {
	b := goBuf(buf)
	r := s.run(func() goi.Value { return s.in.Call(s.method(st, "EncodeTo"), []goi.Value{o, b[start:]}) })
	r.Buf = terms(b)
	return r
}

func (s *goSession) EncodeFresh(o Obj, st *wire.Struct) (Res, bool) {
	r := s.run(func() goi.Value { return s.in.Call(s.method(st, "Encode"), []goi.Value{o}) })
	if r.Exc == "" {
		r.Ret = s.p.BV(64, uint64(len(r.Buf)))
	}
	return r, true
}

func (s *goSession) EncodeSize(o Obj, st *wire.Struct) Res {
	return s.run(func() goi.Value { return s.in.Call(s.method(st, "EncodeSize"), []goi.Value{o}) })
}

func (s *goSession) DecodeSize(st *wire.Struct, buf []*sym.Term, start int) Res {
	b := goBuf(buf)
	return s.run(func() goi.Value {
		return s.in.Call(s.method(st, "DecodeSize"), []goi.Value{s.New(st), b[start:]})
	})
}

func (s *goSession) Decode(o Obj, st *wire.Struct, buf []*sym.Term, start int) Res {
	b := goBuf(buf)
	r := s.run(func() goi.Value { return s.in.Call(s.method(st, "Decode"), []goi.Value{o, b[start:]}) })
	r.Buf = terms(b)
	return r
}

func (s *goSession) CallGet(o Obj, st *wire.Struct, m *wire.Method) Res {
	return s.run(func() goi.Value { return s.in.Call(s.method(st, "Get"+m.Name), []goi.Value{o}) })
}

func (s *goSession) CallSet(o Obj, st *wire.Struct, m *wire.Method, arg *sym.Term) Res {
	return s.run(func() goi.Value { return s.in.Call(s.method(st, "Set"+m.Name), []goi.Value{o, arg}) })
}

type goHandle struct{ b goi.Slice }

func (s *goSession) NewBuf(buf []*sym.Term) any { return &goHandle{goBuf(buf)} }

func (s *goSession) FieldOwn(o Obj, st *wire.Struct, f *wire.Field, h any) {
	(*o.(goi.Ptr)).(goi.Struct)[fieldIndex(s.typ(st), f.Name)] = h.(*goHandle).b
}

func (s *goSession) DecodeKeep(o Obj, st *wire.Struct, h any, start int) Res {
	b := h.(*goHandle).b
	return s.run(func() goi.Value { return s.in.Call(s.method(st, "Decode"), []goi.Value{o, b[start:]}) })
}

func (s *goSession) BufSet(h any, i int, v *sym.Term) { h.(*goHandle).b[i] = v }
func (s *goSession) BufGet(h any, i int) *sym.Term    { return h.(*goHandle).b[i].(*sym.Term) }
func (s *goSession) FieldByteSet(o Obj, st *wire.Struct, f *wire.Field, i int, v *sym.Term) {
	x := (*o.(goi.Ptr)).(goi.Struct)[fieldIndex(s.typ(st), f.Name)]
	x.(goi.Slice)[i] = v
}
