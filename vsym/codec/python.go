package codec

import (
	_ "embed"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"vsym/dyn"
	"vsym/sym"
	"vsym/wire"
)

//go:embed scripts/pyast.py
var pyASTScript string

//go:embed scripts/pydrv.py
var pyDriver string

func init() { Backends["python"] = Backend{LoadPython, ReplayPython} }

// find1 returns the only file of a job with the given suffix.
func find1(j *Job, suffix string) (string, error) {
	var out []string
	filepath.Walk(j.Dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, suffix) {
			out = append(out, p)
		}
		return nil
	})
	if len(out) != 1 {
		return "", fmt.Errorf("job %s: %d generated files with suffix %s", j.ID, len(out), suffix)
	}
	return out[0], nil
}

func runScript(e *Env, name, text string, stdin string, cmdline ...string) ([]byte, error) {
	dir, err := os.MkdirTemp(e.Scratch, "run") // targets run at the same time
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		return nil, err
	}
	for i := range cmdline {
		if cmdline[i] == "@" {
			cmdline[i] = p
		}
	}
	cmd := exec.Command(cmdline[0], cmdline[1:]...)
	cmd.Stdin = strings.NewReader(stdin)
	cmd.Env = append(os.Environ(), "PYTHONDONTWRITEBYTECODE=1")
	var se strings.Builder
	cmd.Stderr = &se
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%s: %v\n%s", name, err, se.String())
	}
	return out, nil
}

// loadTrees parses the generated file of every job.
func loadTrees(e *Env, jobs []*Job, suffix, name, script string, cmd ...string) (map[*Job]*dyn.Node, map[*Job]string, error) {
	files := map[*Job]string{}
	var in strings.Builder
	for _, j := range jobs {
		p, err := find1(j, suffix)
		if err != nil {
			return nil, nil, err
		}
		files[j] = p
		in.WriteString(p + "\n")
	}
	if _, err := runScript(e, name, script, in.String(), cmd...); err != nil {
		return nil, nil, err
	}
	trees := map[*Job]*dyn.Node{}
	for _, j := range jobs {
		b, err := os.ReadFile(files[j] + ".json")
		if err != nil {
			return nil, nil, err
		}
		os.Remove(files[j] + ".json")
		if strings.HasPrefix(string(b), `{"error":`) {
			j.Err = "generated code does not parse: " + string(b)
			continue
		}
		t, err := dyn.ReadAST(strings.NewReader(string(b)))
		if err != nil {
			return nil, nil, fmt.Errorf("%s: %v", files[j], err)
		}
		trees[j] = t
	}
	return trees, files, nil
}

func LoadPython(e *Env, jobs []*Job) error {
	trees, files, err := loadTrees(e, jobs, ".py", "pyast.py", pyASTScript, "python3", "@")
	if err != nil {
		return err
	}
	for _, j := range jobs {
		if trees[j] == nil {
			continue
		}
		// the module body must execute; its state holds no terms
		var st sym.Stats
		x := sym.NewExec(&st, 1000)
		var mod *dyn.PyMod
		x.Run(func(p *sym.Path) {
			m, err := dyn.NewPy(trees[j], p)
			if err != nil {
				j.Err = err.Error()
				return
			}
			mod = m
		})
		incon := x.Incon
		x.Close()
		if j.Err != "" {
			continue
		}
		if mod == nil {
			return fmt.Errorf("python module of job %s: %v", j.ID, incon)
		}
		j.Prog = &pyProg{mod, files[j]}
	}
	return nil
}

type pyProg struct {
	mod  *dyn.PyMod
	file string
}

type pySession struct {
	*pyProg
	m    *dyn.M
	p    *sym.Path
	trap string
}

func (g *pyProg) Session(p *sym.Path) Session { return &pySession{pyProg: g, m: dyn.NewM(p), p: p} }

func (s *pySession) Funcs() map[string]int { return s.m.Called }
func (s *pySession) GetTrap() string       { return s.trap }

func (s *pySession) class(name string) *dyn.Class {
	for k, v := range s.mod.G {
		if c, ok := (*v).(*dyn.Class); ok && Norm(k) == Norm(name) {
			return c
		}
	}
	sym.Unsupported("python: no class %s", name)
	return nil
}

func (s *pySession) New(st *wire.Struct) Obj {
	var o dyn.Value
	if r := s.m.Catch(func() { o = s.m.Instantiate(s.class(st.Name), nil, nil) }); r != nil {
		sym.Unsupported("python: constructing %s raises %s %s", st.Name, r.Class, r.Msg)
	}
	return o
}

func (s *pySession) attr(o *dyn.Obj, name string) string {
	for k := range o.Class.F {
		if Norm(k) == Norm(name) && s.m.PyIsProperty(o.Class, k) {
			return k
		}
	}
	for k := range o.F { // minimal code has plain attributes
		if Norm(k) == Norm(name) {
			return k
		}
	}
	return name
}

func (s *pySession) Set(o Obj, st *wire.Struct, f *wire.Field, v *wire.Val) {
	x := o.(*dyn.Obj)
	val := s.in(f, v)
	if r := s.m.Catch(func() { s.m.PySetAttr(x, s.attr(x, f.Name), val) }); r != nil {
		if f.Const != "" {
			return
		}
		sym.Unsupported("python: setting %s raises %s %s", f.Name, r.Class, r.Msg)
	}
}

func elemField(f *wire.Field) *wire.Field {
	g := *f
	g.N, g.Bits = 0, f.ElemBits()
	return &g
}

// dynInt is the integer value of a scalar.
func dynInt(m *dyn.M, f *wire.Field, t *sym.Term) dyn.Value {
	if f.Kind.Signed() || t.W > f.StoreBits() {
		return m.FromS(t)
	}
	return m.FromU(t)
}

// dynScalar converts an integer read from an object to a field value: wider
// than the field's type when it does not provably fit.
func dynScalar(m *dyn.M, f *wire.Field, v dyn.Value) *sym.Term {
	w := f.StoreBits()
	t := m.Term(v)
	if f.Kind.Signed() {
		if t.W <= w {
			return m.P.Sext(t, w)
		}
		if fits(m, t, w, true) {
			return m.P.Extract(t, w-1, 0)
		}
		return t
	}
	if m.NonNeg(v) && t.W <= w+1 {
		return m.Wide(v, w)
	}
	if fits(m, t, w, false) {
		return m.Wide(v, w)
	}
	return m.P.Sext(t, max(t.W, w+1))
}

func fits(m *dyn.M, t *sym.Term, w int, signed bool) bool {
	if !t.IsConst() {
		return false
	}
	b := t.SBig()
	if signed {
		return b.BitLen() < w || b.Sign() < 0 && -b.Int64() == 1<<uint(w-1) && w < 64 || b.Sign() < 0 && w == 64 && b.IsInt64()
	}
	return b.Sign() >= 0 && b.BitLen() <= w
}

func (s *pySession) in(f *wire.Field, v *wire.Val) dyn.Value {
	if f.N > 0 {
		l := &dyn.List{}
		for _, e := range v.Elems {
			l.E = append(l.E, s.in(elemField(f), e))
		}
		return l
	}
	switch f.Kind {
	case wire.KString:
		return textOf(s.p, v.B)
	case wire.KBytes:
		b := &dyn.Buf{ReadOnly: true}
		for _, t := range v.B {
			b.B = append(b.B, t)
		}
		return &dyn.View{Buf: b, N: len(v.B), Kind: "bytes"}
	case wire.KStruct:
		o := s.New(f.Struct)
		SetAll(s, o, f.Struct, v)
		return o
	case wire.KBool:
		return s.m.MkBool(boolTerm(s.p, v.T))
	case wire.KF32:
		return s.m.MkFlt(s.p.UF("f32.to.f64", 64, v.T))
	case wire.KF64:
		return s.m.MkFlt(v.T)
	case wire.KEnum:
		return dyn.EnumVal{C: s.class(f.Enum.Name), V: s.m.FromU(v.T)}
	}
	return dynInt(s.m, f, v.T)
}

func boolTerm(p *sym.Path, t *sym.Term) *sym.Term {
	if t.W == 0 {
		return t
	}
	return p.NonZero(t)
}

// textOf is the text that well-formed UTF-8 bytes spell, as UTF-16 units.
func textOf(p *sym.Path, b []*sym.Term) dyn.Value {
	s := &dyn.Str{}
	for i := 0; i < len(b); {
		u, n := dyn.UTF16At(p, b, i)
		s.U = append(s.U, u...)
		i += n
	}
	return s
}

// utf8Of encodes text; lone surrogates become U+FFFD.
func utf8Of(m *dyn.M, v dyn.Value) ([]*sym.Term, bool) {
	st, ok := m.StrOf(v)
	if !ok {
		return nil, false
	}
	p := m.P
	if st.Opaque {
		return []*sym.Term{p.Fresh("opaque", 8)}, true
	}
	var b []*sym.Term
	c := func(x uint64) *sym.Term { return p.BV(16, x) }
	low := func(u *sym.Term, sh int, mask, or uint64) *sym.Term {
		return p.Extract(p.Or(p.And(p.Lshr(u, c(uint64(sh))), c(mask)), c(or)), 7, 0)
	}
	for i := 0; i < len(st.U); i++ {
		u := st.U[i]
		switch {
		case p.Branch(p.Ult(u, c(0x80))):
			b = append(b, p.Extract(u, 7, 0))
		case p.Branch(p.Ult(u, c(0x800))):
			b = append(b, low(u, 6, 0x1f, 0xc0), low(u, 0, 0x3f, 0x80))
		case p.Branch(p.Or(p.Ult(u, c(0xd800)), p.Ule(c(0xe000), u))):
			b = append(b, low(u, 12, 0xf, 0xe0), low(u, 6, 0x3f, 0x80), low(u, 0, 0x3f, 0x80))
		default:
			if p.Branch(p.Ult(u, c(0xdc00))) && i+1 < len(st.U) {
				w := st.U[i+1]
				if p.Branch(p.And(p.Ule(c(0xdc00), w), p.Ult(w, c(0xe000)))) {
					cp := p.Add(p.Concat(p.BV(11, 0), p.Concat(p.Extract(u, 9, 0), p.Extract(w, 9, 0))), p.BV(31, 0x10000))
					part := func(hi, lo int, or uint64) *sym.Term {
						return p.Or(p.Zext(p.Extract(cp, hi, lo), 8), p.BV(8, or))
					}
					b = append(b, part(20, 18, 0xf0), part(17, 12, 0x80), part(11, 6, 0x80), part(5, 0, 0x80))
					i++
					continue
				}
			}
			b = append(b, p.BV(8, 0xef), p.BV(8, 0xbf), p.BV(8, 0xbd))
		}
	}
	return b, true
}

func (s *pySession) Get(o Obj, st *wire.Struct, f *wire.Field) *wire.Val {
	x := o.(*dyn.Obj)
	var v dyn.Value
	if r := s.m.Catch(func() { v = s.m.PyGetAttr(x, s.attr(x, f.Name)) }); r != nil {
		s.trap = r.Class + " " + r.Msg
		return &wire.Val{}
	}
	return s.out(f, v)
}

func (s *pySession) bad(f *wire.Field, v dyn.Value) *wire.Val {
	if s.trap == "" {
		s.trap = fmt.Sprintf("field %s holds %T", f.Name, v)
	}
	return &wire.Val{T: s.p.BV(max(1, f.StoreBits()), 0)}
}

func (s *pySession) out(f *wire.Field, v dyn.Value) *wire.Val {
	if f.N > 0 {
		r := &wire.Val{}
		l, ok := v.(*dyn.List)
		if !ok {
			return s.bad(f, v)
		}
		for _, e := range l.E {
			r.Elems = append(r.Elems, s.out(elemField(f), e))
		}
		return r
	}
	switch f.Kind {
	case wire.KString:
		b, ok := utf8Of(s.m, v)
		if !ok {
			return s.bad(f, v)
		}
		return &wire.Val{B: b}
	case wire.KBytes:
		w, ok := v.(*dyn.View)
		if !ok {
			return s.bad(f, v)
		}
		return &wire.Val{B: w.Terms()}
	case wire.KStruct:
		o, ok := v.(*dyn.Obj)
		if !ok {
			return s.bad(f, v)
		}
		return GetAll(s, o, f.Struct)
	case wire.KBool:
		switch x := v.(type) {
		case bool:
			return &wire.Val{T: s.p.Bool(x)}
		case *sym.Term:
			return &wire.Val{T: x}
		case int64, dyn.Int:
			return &wire.Val{T: s.m.Wide(v, 9)} // an integer where a truth value is documented
		}
		return s.bad(f, v)
	case wire.KF32, wire.KF64:
		t, ok := s.m.FltTerm(v)
		if !ok {
			return s.bad(f, v)
		}
		if f.Kind == wire.KF32 {
			t = f32of(s.p, t)
		}
		return &wire.Val{T: t}
	case wire.KEnum:
		e, ok := v.(dyn.EnumVal)
		if !ok {
			return s.bad(f, v)
		}
		return &wire.Val{T: dynScalar(s.m, f, e.V)}
	}
	if !s.m.IsInt(v) {
		return s.bad(f, v)
	}
	return &wire.Val{T: dynScalar(s.m, f, v)}
}

// f32of narrows a double that came from a float32.
func f32of(p *sym.Path, t *sym.Term) *sym.Term { return p.UF("f64.to.f32", 32, t) }

// clamp is the result as a 64-bit signed number (saturated).
func clamp(m *dyn.M, v dyn.Value) *sym.Term {
	t := m.Term(v)
	if t.W <= 64 {
		return m.P.Sext(t, 64)
	}
	lo, hi := m.P.SBV(64, -1<<63), m.P.SBV(64, 1<<63-1)
	c := m.P
	return c.Ite(c.Slt(t, c.Sext(lo, t.W)), lo, c.Ite(c.Slt(c.Sext(hi, t.W), t), hi, c.Extract(t, 63, 0)))
}

func (s *pySession) run(f func() dyn.Value) (dyn.Value, Res) {
	var v dyn.Value
	var r Res
	if e := s.m.Catch(func() { v = f() }); e != nil {
		r.Exc = e.Class + " " + e.Msg
		return nil, r
	}
	if s.m.IsInt(v) {
		r.Ret = clamp(s.m, v)
	}
	return v, r
}

func newView(b []*sym.Term, off int, kind string) *dyn.View {
	u := &dyn.Buf{}
	for _, t := range b {
		u.B = append(u.B, t)
	}
	return &dyn.View{Buf: u, Off: off, N: len(b) - off, Kind: kind}
}

func (s *pySession) call(o Obj, name string, a ...dyn.Value) dyn.Value {
	return s.m.PyCallMethod(o.(*dyn.Obj), name, a)
}

func (s *pySession) Encode(o Obj, st *wire.Struct, buf []*sym.Term, start int) Res {
	b := newView(buf, start, "memoryview")
	_, r := s.run(func() dyn.Value { return s.call(o, "encode", b) })
	r.Buf = b.Buf.Terms()
	return r
}

func (s *pySession) EncodeFresh(o Obj, st *wire.Struct) (Res, bool) {
	v, r := s.run(func() dyn.Value { return s.call(o, "encode") })
	if r.Exc == "" {
		w, ok := v.(*dyn.View)
		if !ok {
			r.Exc = "encode() returns no bytes"
			return r, true
		}
		r.Buf = w.Terms()
		r.Ret = s.p.BV(64, uint64(w.N))
	}
	return r, true
}

func (s *pySession) EncodeSize(o Obj, st *wire.Struct) Res {
	_, r := s.run(func() dyn.Value { return s.call(o, "encode_size") })
	return r
}

func (s *pySession) DecodeSize(st *wire.Struct, buf []*sym.Term, start int) Res {
	o := s.New(st)
	_, r := s.run(func() dyn.Value { return s.call(o, "decode_size", newView(buf, start, "memoryview")) })
	return r
}

func (s *pySession) decode(o Obj, b *dyn.View) Res {
	v, r := s.run(func() dyn.Value { return s.call(o, "decode", b) })
	if r.Exc != "" {
		return r
	}
	l, ok := v.(*dyn.List)
	if !ok || len(l.E) != 2 || !s.m.IsInt(l.E[1]) {
		r.Exc = "decode returns no (success, size) pair"
		return r
	}
	n := clamp(s.m, l.E[1])
	r.Ret = n
	if okv, isB := l.E[0].(bool); isB && !okv || !isB && !s.m.Bool(l.E[0]) {
		// failure: (False, k) with a negative k; any other k is no documented result
		r.Ret = s.p.Ite(s.p.Slt(n, s.p.BV(64, 0)), n, s.p.Sub(s.p.SBV(64, -1000), n))
	}
	return r
}

func (s *pySession) Decode(o Obj, st *wire.Struct, buf []*sym.Term, start int) Res {
	b := newView(buf, start, "memoryview")
	r := s.decode(o, b)
	r.Buf = b.Buf.Terms()
	return r
}

func (s *pySession) CallGet(o Obj, st *wire.Struct, m *wire.Method) Res {
	x := o.(*dyn.Obj)
	v, r := s.run(func() dyn.Value { return s.m.PyGetAttr(x, s.attr(x, m.Name)) })
	if r.Exc == "" {
		r.Ret = s.out(&wire.Field{Name: m.Name, Kind: m.Kind}, v).T
	}
	return r
}

func (s *pySession) CallSet(o Obj, st *wire.Struct, m *wire.Method, arg *sym.Term) Res {
	x := o.(*dyn.Obj)
	_, r := s.run(func() dyn.Value {
		s.m.PySetAttr(x, s.attr(x, m.Name), s.in(&wire.Field{Name: m.Name, Kind: m.Kind}, &wire.Val{T: arg}))
		return nil
	})
	return r
}

func (s *pySession) NewBuf(buf []*sym.Term) any { return newView(buf, 0, "memoryview") }

func (s *pySession) FieldOwn(o Obj, st *wire.Struct, f *wire.Field, h any) {
	sym.Unsupported("bytes objects cannot refer to a buffer")
}

func (s *pySession) DecodeKeep(o Obj, st *wire.Struct, h any, start int) Res {
	b := *h.(*dyn.View)
	b.Off += start
	b.N -= start
	return s.decode(o, &b)
}

func (s *pySession) BufSet(h any, i int, v *sym.Term) { h.(*dyn.View).Buf.B[i] = v }
func (s *pySession) BufGet(h any, i int) *sym.Term    { return h.(*dyn.View).Buf.B[i].(*sym.Term) }
func (s *pySession) FieldByteSet(o Obj, st *wire.Struct, f *wire.Field, i int, v *sym.Term) {
	x := o.(*dyn.Obj)
	w := s.m.PyGetAttr(x, s.attr(x, f.Name)).(*dyn.View)
	if w.Kind == "bytes" {
		return // cannot be written to
	}
	w.Buf.B[w.Off+i] = v
}

// ReplayPython runs operations on the real generated Python code.
func ReplayPython(e *Env, ops []*Op) ([][]string, error) {
	p, err := writeOps(e, "pyops", ops, func(o *Op) string { return o.Job.Prog.(*pyProg).file })
	if err != nil {
		return nil, err
	}
	out, err := runScript(e, "pydrv.py", pyDriver, "", "python3", "@", p)
	if err != nil {
		return nil, err
	}
	return SplitOutput(string(out), len(ops)), nil
}
