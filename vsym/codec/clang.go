package codec

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"vsym/llvmi"
	"vsym/sym"
	"vsym/wire"
)

func init() {
	Backends["c"] = Backend{func(e *Env, js []*Job) error { return loadClang(e, js, false) }, func(e *Env, ops []*Op) ([][]string, error) { return replayClang(e, ops, false) }}
	Backends["cpp"] = Backend{func(e *Env, js []*Job) error { return loadClang(e, js, true) }, func(e *Env, ops []*Op) ([][]string, error) { return replayClang(e, ops, true) }}
}

func tool(names ...string) string {
	for _, n := range names {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return names[0]
}

func (l leaf) cExpr() string {
	s := "p->"
	for i, st := range l.path {
		if i > 0 {
			s += "."
		}
		s += st.f.Name
		if st.idx >= 0 {
			s += fmt.Sprintf("[%d]", st.idx)
		}
	}
	return s
}

func allStructs(u *wire.Unit) []*wire.Struct { return u.Structs }

// glue is a C ABI around the generated code of one job.
func glue(j *Job, cpp bool) string {
	var sb strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&sb, f, a...) }
	ext := ""
	if cpp {
		ext = "extern \"C\" "
		w("#include %q\n#include <cstdlib>\n#include <cstring>\n#include <string>\n#include <memory>\n#include <type_traits>\n", genFile(j, ".bb.cpp"))
	} else {
		w("#include %q\n#include <stdlib.h>\n#include <string.h>\n", genFile(j, ".bb.c"))
	}
	ty := func(e string) string {
		if cpp {
			return "std::remove_reference_t<decltype((" + e + "))>"
		}
		return "__typeof__(" + e + ")"
	}
	for _, st := range allStructs(j.Unit) {
		T := "struct " + st.Name
		if cpp {
			T = j.Unit.Pkg + "::" + st.Name
		}
		h := gname(j, st)
		if cpp {
			w("%svoid* %s_new(void) { void* m = calloc(1, sizeof(%s)); return new (m) %s(); }\n", ext, h, T, T)
		} else {
			w("void* %s_new(void) { return calloc(1, sizeof(%s)); }\n", h, T)
		}
		for i, l := range leaves(st, nil, nil, false) {
			x := l.cExpr()
			switch l.f.Kind {
			case wire.KString:
				if cpp {
					w("%svoid %s_sets_%d(%s* p, char* d, uint64_t n) { %s = std::string(d, n); }\n", ext, h, i, T, x)
					w("%sconst char* %s_gets_%d(%s* p) { return %s.data(); }\n%suint64_t %s_getn_%d(%s* p) { return %s.size(); }\n", ext, h, i, T, x, ext, h, i, T, x)
				} else {
					w("void %s_sets_%d(%s* p, char* d, uint64_t n) { %s = d; }\n", h, i, T, x)
					w("const char* %s_gets_%d(%s* p) { return %s; }\nuint64_t %s_getn_%d(%s* p) { return strlen(%s); }\n", h, i, T, x, h, i, T, x)
				}
			case wire.KBytes:
				if cpp {
					w("%svoid %s_sets_%d(%s* p, char* d, uint64_t n) { %s.data = std::shared_ptr<uint8_t[]>((uint8_t*)d, [](uint8_t*){}); %s.length = n; }\n", ext, h, i, T, x, x)
					w("%sconst char* %s_gets_%d(%s* p) { return (const char*)%s.data.get(); }\n", ext, h, i, T, x)
				} else {
					w("void %s_sets_%d(%s* p, char* d, uint64_t n) { %s.data = (uint8_t*)d; %s.length = n; }\n", h, i, T, x, x)
					w("const char* %s_gets_%d(%s* p) { return (const char*)%s.data; }\n", h, i, T, x)
				}
				w("%suint64_t %s_getn_%d(%s* p) { return %s.length; }\n", ext, h, i, T, x)
			default:
				if l.f.Kind.Float() {
					w("%svoid %s_set_%d(%s* p, uint64_t v) { memcpy(&%s, &v, sizeof(%s)); }\n", ext, h, i, T, x, x)
					w("%suint64_t %s_get_%d(%s* p) { uint64_t v = 0; memcpy(&v, &%s, sizeof(%s)); return v; }\n", ext, h, i, T, x, x)
				} else if l.f.Kind == wire.KBool {
					w("%svoid %s_set_%d(%s* p, uint64_t v) { %s = (bool)v; }\n", ext, h, i, T, x)
					w("%suint64_t %s_get_%d(%s* p) { return *(const unsigned char*)&%s; }\n", ext, h, i, T, x)
				} else {
					w("%svoid %s_set_%d(%s* p, uint64_t v) { %s = (%s)v; }\n", ext, h, i, T, x, ty(x))
					w("%suint64_t %s_get_%d(%s* p) { return (uint64_t)%s; }\n", ext, h, i, T, x)
				}
			}
		}
		if cpp && j.Has("-compat") {
			w("%suint64_t %s_enc(%s* p, uint8_t* d, uint64_t n) { return p->encode((void*)d); }\n", ext, h, T)
			w("%suint64_t %s_encsize(%s* p) { return p->encode_size(); }\n", ext, h, T)
			w("%sint64_t %s_decsize(const uint8_t* d, uint64_t n) { return %s::decode_size((const void*)d, n); }\n", ext, h, T)
			w("%sint64_t %s_dec(const uint8_t* d, uint64_t n, %s* p) { return p->decode((const void*)d); }\n", ext, h, T)
		} else if cpp {
			w("%suint64_t %s_enc(%s* p, uint8_t* d, uint64_t n) { return p->encode(::std::span<uint8_t>(d, n)); }\n", ext, h, T)
			w("%suint64_t %s_encsize(%s* p) { return p->encode_size(); }\n", ext, h, T)
			w("%sint64_t %s_decsize(const uint8_t* d, uint64_t n) { return %s::decode_size(::std::span<const uint8_t>(d, n)); }\n", ext, h, T)
			w("%sint64_t %s_dec(const uint8_t* d, uint64_t n, %s* p) { return p->decode(::std::span<const uint8_t>(d, n)); }\n", ext, h, T)
		} else {
			w("uint64_t %s_enc(%s* p, uint8_t* d, uint64_t n) { return %s_encode(p, d); }\n", h, T, st.Name)
			w("uint64_t %s_encsize(%s* p) { return %s_encode_size(p); }\n", h, T, st.Name)
			w("int64_t %s_decsize(const uint8_t* d, uint64_t n) { return %s_decode_size(d, n); }\n", h, st.Name)
			w("int64_t %s_dec(const uint8_t* d, uint64_t n, %s* p) { return %s_decode(d, p); }\n", h, T, st.Name)
		}
		if j.Has("-minimal") {
			continue
		}
		for _, f := range st.Flat() {
			for k, m := range f.Meth {
				ct := cTypes[m.Kind]
				name := fmt.Sprintf("%s_%s_%d", h, f.Name, k)
				if m.Set {
					if cpp {
						w("%svoid %s(%s* p, uint64_t raw) { %s v; memcpy(&v, &raw, sizeof v); p->set_%s(v); }\n", ext, name, T, ct, m.Name)
					} else {
						w("void %s(%s* p, uint64_t raw) { %s v; memcpy(&v, &raw, sizeof v); %s_set_%s(p, v); }\n", name, T, ct, st.Name, m.Name)
					}
				} else {
					if cpp {
						w("%suint64_t %s(%s* p) { %s v = p->get_%s(); uint64_t raw = 0; memcpy(&raw, &v, sizeof v); return raw; }\n", ext, name, T, ct, m.Name)
					} else {
						w("uint64_t %s(%s* p) { %s v = %s_get_%s(p); uint64_t raw = 0; memcpy(&raw, &v, sizeof v); return raw; }\n", name, T, ct, st.Name, m.Name)
					}
				}
			}
		}
	}
	return sb.String()
}

var cTypes = map[wire.Kind]string{wire.KBool: "bool", wire.KU8: "uint8_t", wire.KU16: "uint16_t", wire.KU32: "uint32_t", wire.KU64: "uint64_t",
	wire.KI8: "int8_t", wire.KI16: "int16_t", wire.KI32: "int32_t", wire.KI64: "int64_t", wire.KF32: "float", wire.KF64: "double"}

func gname(j *Job, st *wire.Struct) string { return "h_" + j.Unit.Pkg + "_" + st.Name }

// genFile finds the generated source of a job.
func genFile(j *Job, suffix string) string {
	var found string
	filepath.Walk(j.Dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, suffix) {
			found = p
		}
		return nil
	})
	if found == "" {
		return filepath.Join(j.Dir, j.Unit.Pkg+suffix)
	}
	return found
}

func parallel(n int, f func(i int)) {
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

func glueFile(j *Job, cpp bool) string {
	if cpp {
		return filepath.Join(j.Dir, "zz_glue.cpp")
	}
	return filepath.Join(j.Dir, "zz_glue.c")
}

func loadClang(e *Env, jobs []*Job, cpp bool) error {
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		src := glueFile(j, cpp)
		if err := os.WriteFile(src, []byte(glue(j, cpp)), 0o644); err != nil {
			j.Err = err.Error()
			return
		}
		ll := filepath.Join(j.Dir, "zz.ll")
		cc := []string{tool("clang-18", "clang"), "-std=c17"}
		if cpp {
			cc = []string{tool("clang++-18", "clang++"), "-std=c++20", "-D_GLIBCXX_EXTERN_TEMPLATE=0"}
		}
		args := append(cc[1:], "-w", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-fwrapv", "-ffp-contract=off", "-fno-strict-aliasing", src, "-o", ll)
		if out, err := exec.Command(cc[0], args...).CombinedOutput(); err != nil {
			j.Err = fmt.Sprintf("generated code does not compile: %v\n%s", err, firstLines(string(out), 12))
			return
		}
		if out, err := exec.Command(tool("opt-18", "opt"), "-S", "-passes=mem2reg", ll, "-o", ll).CombinedOutput(); err != nil {
			j.Err = fmt.Sprintf("opt: %v\n%s", err, out)
			return
		}
		m, err := llvmi.Parse(ll)
		if err != nil {
			j.Err = err.Error()
			return
		}
		j.Prog = &clangProg{m, j, cpp}
	})
	return nil
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

type clangProg struct {
	m   *llvmi.Module
	j   *Job
	cpp bool
}

type clangSession struct {
	*clangProg
	mc   *llvmi.Mach
	p    *sym.Path
	trap string
}

func (c *clangProg) Session(p *sym.Path) Session {
	return &clangSession{clangProg: c, mc: llvmi.New(c.m, p), p: p}
}

func (s *clangSession) GetTrap() string {
	t := s.trap
	s.trap = ""
	return t
}

func (s *clangSession) Funcs() map[string]int {
	r := map[string]int{}
	for k, v := range s.mc.Called {
		if !strings.HasPrefix(k, "h_") {
			r[k] = v
		}
	}
	return r
}

func (s *clangSession) New(st *wire.Struct) Obj { return s.mc.Call(gname(s.j, st) + "_new") }

func leafIndex(st *wire.Struct, f *wire.Field) (first int) {
	for i, l := range leaves(st, nil, nil, false) {
		if l.path[0].f == f {
			return i
		}
	}
	return -1
}

func (s *clangSession) Set(o Obj, st *wire.Struct, f *wire.Field, v *wire.Val) {
	if f.Const != "" || f.Kind == wire.KVoid {
		return
	}
	base := leafIndex(st, f)
	ls := leaves(st, &wire.Val{F: map[string]*wire.Val{f.Name: v}}, nil, false)
	h := gname(s.j, st)
	for i, l := range ls {
		n := base + i
		switch l.f.Kind {
		case wire.KString, wire.KBytes:
			sz := len(l.v.B)
			if l.f.Kind == wire.KString {
				sz++
			}
			ob := s.mc.Alloc("content of "+l.label(), sz)
			for k, b := range l.v.B {
				ob.B[k] = b
			}
			if l.f.Kind == wire.KString {
				ob.B[sz-1] = s.p.BV(8, 0)
			}
			s.mc.Call(fmt.Sprintf("%s_sets_%d", h, n), o, s.mc.PtrTo(ob, 0), s.p.BV(64, uint64(len(l.v.B))))
		default:
			t := wire.AsBV(s.p.Ctx, l.v.T)
			s.mc.Call(fmt.Sprintf("%s_set_%d", h, n), o, s.p.Resize(t, 64, l.f.Kind.Signed()))
		}
	}
}

func (s *clangSession) Get(o Obj, st *wire.Struct, f *wire.Field) *wire.Val {
	n := leafIndex(st, f)
	var v *wire.Val
	tr := s.mc.Catch(func() { v = s.build(o, gname(s.j, st), f, &n) })
	if tr != nil {
		s.trap = tr.What
		return &wire.Val{}
	}
	return v
}

func (s *clangSession) build(o Obj, h string, f *wire.Field, n *int) *wire.Val {
	if f.N > 0 {
		g := *f
		g.N, g.Bits = 0, f.ElemBits()
		v := &wire.Val{}
		for i := 0; i < f.N; i++ {
			v.Elems = append(v.Elems, s.build(o, h, &g, n))
		}
		return v
	}
	if f.Kind == wire.KStruct {
		v := &wire.Val{F: map[string]*wire.Val{}}
		for _, g := range f.Struct.Flat() {
			if g.Kind == wire.KVoid || g.Const != "" {
				continue
			}
			v.F[g.Name] = s.build(o, h, g, n)
		}
		return v
	}
	i := *n
	*n++
	switch f.Kind {
	case wire.KString, wire.KBytes:
		ln := s.mc.Call(fmt.Sprintf("%s_getn_%d", h, i), o).(*sym.Term)
		if !ln.IsConst() {
			ln = s.p.Concretize(ln)
		}
		v := &wire.Val{B: []*sym.Term{}}
		if ln.V > 1<<16 {
			panic(llvmi.Trap{What: fmt.Sprintf("content length %d", ln.V)})
		}
		if ln.V > 0 {
			q := s.mc.Call(fmt.Sprintf("%s_gets_%d", h, i), o)
			for k := 0; k < int(ln.V); k++ {
				v.B = append(v.B, s.mc.LoadByte(q, k))
			}
		}
		return v
	}
	t := s.mc.Call(fmt.Sprintf("%s_get_%d", h, i), o).(*sym.Term)
	switch {
	case f.Kind == wire.KBool:
		return &wire.Val{T: s.p.Extract(t, 7, 0)} // the raw object: anything but 0 and 1 is not a bool
	case f.Kind == wire.KEnum:
		return &wire.Val{T: t}
	}
	return &wire.Val{T: s.p.Extract(t, f.StoreBits()-1, 0)}
}

func (s *clangSession) buf(b []*sym.Term) *llvmi.Obj {
	o := s.mc.Alloc("buffer", len(b))
	for i := range b {
		o.B[i] = b[i]
	}
	return o
}

func (s *clangSession) run(f func() llvmi.Val) Res {
	var r Res
	t := s.mc.Catch(func() {
		v := f()
		if x, ok := v.(*sym.Term); ok {
			r.Ret = x
		}
	})
	if t != nil {
		r.Exc = t.What
	}
	return r
}

func (s *clangSession) num(n int) *sym.Term { return s.p.BV(64, uint64(n)) }

func (s *clangSession) Encode(o Obj, st *wire.Struct, buf []*sym.Term, start int) Res {
	b := s.buf(buf)
	r := s.run(func() llvmi.Val {
		return s.mc.Call(gname(s.j, st)+"_enc", o, s.mc.PtrTo(b, start), s.num(len(buf)-start))
	})
	r.Buf = s.mc.Bytes(b)
	return r
}

func (s *clangSession) EncodeFresh(o Obj, st *wire.Struct) (Res, bool) { return Res{}, false }

func (s *clangSession) EncodeSize(o Obj, st *wire.Struct) Res {
	return s.run(func() llvmi.Val { return s.mc.Call(gname(s.j, st)+"_encsize", o) })
}

func (s *clangSession) DecodeSize(st *wire.Struct, buf []*sym.Term, start int) Res {
	b := s.buf(buf)
	return s.run(func() llvmi.Val {
		return s.mc.Call(gname(s.j, st)+"_decsize", s.mc.PtrTo(b, start), s.num(len(buf)-start))
	})
}

func (s *clangSession) Decode(o Obj, st *wire.Struct, buf []*sym.Term, start int) Res {
	return s.DecodeKeep(o, st, s.NewBuf(buf), start)
}

func methIndex(st *wire.Struct, m *wire.Method) string {
	for _, f := range st.Flat() {
		for k := range f.Meth {
			if &f.Meth[k] == m {
				return fmt.Sprintf("%s_%d", f.Name, k)
			}
		}
	}
	panic("method not found")
}

func (s *clangSession) CallGet(o Obj, st *wire.Struct, m *wire.Method) Res {
	r := s.run(func() llvmi.Val { return s.mc.Call(gname(s.j, st)+"_"+methIndex(st, m), o) })
	if w := kindWidth(m.Kind); r.Ret != nil && r.Ret.W > w {
		r.Ret = s.p.Extract(r.Ret, w-1, 0)
	}
	return r
}

func (s *clangSession) CallSet(o Obj, st *wire.Struct, m *wire.Method, arg *sym.Term) Res {
	return s.run(func() llvmi.Val {
		return s.mc.Call(gname(s.j, st)+"_"+methIndex(st, m), o, s.p.Resize(wire.AsBV(s.p.Ctx, arg), 64, false))
	})
}

func (s *clangSession) NewBuf(buf []*sym.Term) any { return s.buf(buf) }

func (s *clangSession) FieldOwn(o Obj, st *wire.Struct, f *wire.Field, h any) {
	sym.Unsupported("no way to make a field refer to a buffer")
}

func (s *clangSession) DecodeKeep(o Obj, st *wire.Struct, h any, start int) Res {
	b := h.(*llvmi.Obj)
	r := s.run(func() llvmi.Val {
		return s.mc.Call(gname(s.j, st)+"_dec", s.mc.PtrTo(b, start), s.num(len(b.B)-start), o)
	})
	r.Buf = s.mc.Bytes(b)
	return r
}

func (s *clangSession) BufSet(h any, i int, v *sym.Term) { h.(*llvmi.Obj).B[i] = v }
func (s *clangSession) BufGet(h any, i int) *sym.Term    { return s.mc.Bytes(h.(*llvmi.Obj))[i] }
func (s *clangSession) FieldByteSet(o Obj, st *wire.Struct, f *wire.Field, i int, v *sym.Term) {
	n := leafIndex(st, f)
	q := s.mc.Call(fmt.Sprintf("%s_gets_%d", gname(s.j, st), n), o)
	s.mc.StoreByte(q, i, v)
}

// replayClang runs operations on natively compiled generated code.
func replayClang(e *Env, ops []*Op, cpp bool) ([][]string, error) {
	cc := []string{tool("clang-18", "clang"), "-std=c17"}
	if cpp {
		cc = []string{tool("clang++-18", "clang++"), "-std=c++20"}
	}
	san := []string{"-w", "-O1", "-fwrapv", "-ffp-contract=off", "-fno-strict-aliasing", "-fsanitize=address,shift-exponent,integer-divide-by-zero", "-fno-sanitize-recover=all"}
	var jobs []*Job
	seen := map[*Job]bool{}
	for _, o := range ops {
		if !seen[o.Job] {
			seen[o.Job] = true
			jobs = append(jobs, o.Job)
		}
	}
	var mu sync.Mutex
	var first error
	dir, err := os.MkdirTemp(e.Scratch, "clang")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	objs := make([]string, len(jobs))
	parallel(len(jobs), func(i int) {
		objs[i] = filepath.Join(dir, fmt.Sprintf("g%d.o", i))
		if out, err := exec.Command(cc[0], append(append(append([]string{}, cc[1:]...), san...), "-c", glueFile(jobs[i], cpp), "-o", objs[i])...).CombinedOutput(); err != nil {
			mu.Lock()
			first = fmt.Errorf("compiling: %v\n%s", err, firstLines(string(out), 10))
			mu.Unlock()
			return
		}
		if !cpp { // jobs may define the same struct: only the glue stays visible
			if out, err := exec.Command(tool("objcopy", "llvm-objcopy-18"), "-w", "--keep-global-symbol=h_*", objs[i]).CombinedOutput(); err != nil {
				mu.Lock()
				first = fmt.Errorf("objcopy: %v\n%s", err, firstLines(string(out), 10))
				mu.Unlock()
			}
		}
	})
	if first != nil {
		return nil, first
	}
	var body, decl strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&body, f, a...) }
	declared := map[string]bool{}
	d := func(ret, name, params string) string {
		if !declared[name] {
			declared[name] = true
			fmt.Fprintf(&decl, "%s %s(%s);\n", ret, name, params)
		}
		return name
	}
	for i, o := range ops {
		h := gname(o.Job, o.St)
		w("static void op%d(void) {\n  void* p = %s(); (void)p;\n", i, d("void*", h+"_new", "void"))
		if o.Init != nil {
			for _, f := range o.St.Flat() {
				if f.Kind == wire.KVoid || f.Const != "" || o.Init.F[f.Name] == nil {
					continue
				}
				base := leafIndex(o.St, f)
				for k, l := range leaves(o.St, &wire.Val{F: map[string]*wire.Val{f.Name: o.Init.F[f.Name]}}, nil, false) {
					if l.f.Kind == wire.KString || l.f.Kind == wire.KBytes {
						b := Bytes(l.v.B)
						n := len(b)
						if l.f.Kind == wire.KString {
							b = append(b, 0)
						}
						w("  { static const unsigned char t[] = {%s}; char* q = (char*)malloc(%d); memcpy(q, t, %d); %s(p, q, %d); }\n", orZero(byteList(b)), len(b), len(b),
							d("void", fmt.Sprintf("%s_sets_%d", h, base+k), "void*, char*, uint64_t"), n)
					} else {
						w("  %s(p, %dull);\n", d("void", fmt.Sprintf("%s_set_%d", h, base+k), "void*, uint64_t"), l.v.T.V)
					}
				}
			}
		}
		bb := Bytes(o.Buf)
		w("  static const unsigned char t[] = {%s}; uint64_t n = %d; uint8_t* b = (uint8_t*)malloc(n); memcpy(b, t, n);\n", orZero(byteList(bb)), len(bb))
		switch o.Kind {
		case "encode":
			w("  long long r = (long long)%s(p, b + %d, n - %d); printf(\"ret=%%lld buf=\", r); hx(b, n); puts(\"\");\n", d("uint64_t", h+"_enc", "void*, uint8_t*, uint64_t"), o.Start, o.Start)
		case "encsize":
			w("  printf(\"ret=%%lld\\n\", (long long)%s(p));\n", d("uint64_t", h+"_encsize", "void*"))
		case "decsize":
			w("  printf(\"ret=%%lld\\n\", (long long)%s(b + %d, n - %d));\n", d("int64_t", h+"_decsize", "const uint8_t*, uint64_t"), o.Start, o.Start)
		case "decode":
			w("  long long r = %s(b + %d, n - %d, p); printf(\"ret=%%lld\\n\", r); if (r < 0) return;\n", d("int64_t", h+"_dec", "const uint8_t*, uint64_t, void*"), o.Start, o.Start)
		case "alias":
			w("  long long r = %s(b + %d, n - %d, p); printf(\"ret=%%lld\\n\", r); if (r < 0) return; { static const unsigned char t2[] = {%s}; memcpy(b, t2, n); }\n", d("int64_t", h+"_dec", "const uint8_t*, uint64_t, void*"), o.Start, o.Start, orZero(byteList(Bytes(o.Buf2))))
		case "get":
			w("  printf(\"val=%%llx\\n\", (unsigned long long)%s(p));\n", d("uint64_t", h+"_"+methIndex(o.St, o.M), "void*"))
		case "set":
			w("  %s(p, %dull);\n", d("void", h+"_"+methIndex(o.St, o.M), "void*, uint64_t"), o.Arg.V)
		}
		if o.Kind == "decode" || o.Kind == "alias" || o.Kind == "set" {
			for k, l := range leaves(o.St, nil, nil, false) {
				switch l.f.Kind {
				case wire.KString, wire.KBytes:
					w("  printf(\"%s=\"); { uint64_t m = %s(p); hx((const uint8_t*)%s(p), m); } puts(\"\");\n", l.label(),
						d("uint64_t", fmt.Sprintf("%s_getn_%d", h, k), "void*"), d("const char*", fmt.Sprintf("%s_gets_%d", h, k), "void*"))
				default:
					g := d("uint64_t", fmt.Sprintf("%s_get_%d", h, k), "void*")
					kind := 0
					mask := ^uint64(0)
					switch {
					case l.f.Kind == wire.KF32:
						kind = 32
					case l.f.Kind == wire.KF64:
						kind = 64
					case l.f.Kind == wire.KEnum:
					case l.f.StoreBits() > 0 && l.f.StoreBits() < 64:
						mask = 1<<uint(l.f.StoreBits()) - 1
					}
					w("  num(\"%s\", %s(p) & 0x%xull, %d);\n", l.label(), g, mask, kind)
				}
			}
		}
		if o.Kind == "alias" {
			for _, k := range o.Poke {
				w("  { static const unsigned char t3[] = {%s}; memcpy((char*)%s(p), t3, %d); }\n", orZero(byteList(Bytes(k.B))),
					d("const char*", fmt.Sprintf("%s_gets_%d", h, leafIndex(o.St, k.F)), "void*"), len(k.B))
			}
			w("  printf(\"buf=\"); hx(b, n); puts(\"\");\n")
		}
		w("}\n")
	}
	src := "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <unistd.h>\n#include <sys/wait.h>\n"
	if cpp {
		src += "extern \"C\" {\n" + decl.String() + "}\n"
	} else {
		src += decl.String()
	}
	src += `static void hx(const uint8_t* b, uint64_t n) { for (uint64_t i = 0; i < n; i++) printf("%02x", b[i]); }
static void num(const char* n, uint64_t v, int k) {
  if (k == 32 && (v & 0x7fffffffu) > 0x7f800000u || k == 64 && (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull) { printf("%s=nan\n", n); return; }
  printf("%s=%llx\n", n, (unsigned long long)v);
}
static char obuf[1 << 20];
`
	src += body.String()
	src += "static void (*ops[])(void) = {"
	for i := range ops {
		src += fmt.Sprintf("op%d,", i)
	}
	src += `0};
int main(void) {
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  for (int i = 0; ops[i]; i++) {
    printf("#%d\n", i); fflush(stdout);
    int pid = fork();
    if (pid == 0) { alarm(20); close(2); ops[i](); fflush(stdout); _exit(0); }
    int st = 0; waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("exc\n"); fflush(stdout); }
  }
  return 0;
}
`
	mf := filepath.Join(dir, "main.c")
	if cpp {
		mf = filepath.Join(dir, "main.cpp")
	}
	if err := os.WriteFile(mf, []byte(src), 0o644); err != nil {
		return nil, err
	}
	exe := filepath.Join(dir, "drv")
	args := append(append(append([]string{}, cc[1:]...), san...), mf)
	args = append(args, objs...)
	args = append(args, "-o", exe, "-lm")
	if out, err := exec.Command(cc[0], args...).CombinedOutput(); err != nil {
		return nil, fmt.Errorf("driver: %v\n%s", err, firstLines(string(out), 10))
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1")
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("driver run: %v\n%s", err, firstLines(string(out), 10))
	}
	return SplitOutput(string(out), len(ops)), nil
}

func orZero(s string) string {
	if s == "" {
		return "0"
	}
	return s
}
