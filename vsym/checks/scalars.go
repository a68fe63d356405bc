package checks

import (
	"fmt"
	"sort"

	"vsym/codec"
	"vsym/dyn"
	"vsym/sym"
	"vsym/wire"
)

// CodecTargets are the targets whose generated code is executed symbolically.
var CodecTargets = []string{"go", "c", "cpp", "java", "csharp", "python", "commonjs", "esmodule"}

// utf16 targets hold strings as UTF-16; their symbolic strings are ASCII.
func asciiOnly(t string) bool {
	switch t {
	case "java", "csharp", "python", "commonjs", "esmodule":
		return true
	}
	return false
}

func fixedShape(n int) wire.Shape { return func(string) int { return n } }

// frameEq compares a written buffer with the expected frame; padding bits may
// hold anything.
func frameEq(c *sym.Ctx, got []*sym.Term, fr wire.Frame, start int) *sym.Term {
	r := c.True()
	for i, b := range fr.Bytes {
		g := got[start+i]
		if m := fr.Pad[i]; m != 0 {
			if m == 0xff {
				continue
			}
			k := c.BV(8, uint64(^m))
			r = c.And(r, c.Eq(c.And(g, k), c.And(b, k)))
			continue
		}
		r = c.And(r, c.Eq(g, b))
	}
	return r
}

func outsideEq(c *sym.Ctx, got, old []*sym.Term, start, n int) *sym.Term {
	r := c.True()
	for i := range got {
		if i >= start && i < start+n {
			continue
		}
		r = c.And(r, c.Eq(got[i], old[i]))
	}
	return r
}

func zeros(c *sym.Ctx, n int) []*sym.Term {
	b := make([]*sym.Term, n)
	for i := range b {
		b[i] = c.BV(8, 0)
	}
	return b
}

func symBuf(p *sym.Path, name string, n int) []*sym.Term {
	b := make([]*sym.Term, n)
	for i := range b {
		b[i] = p.Var(fmt.Sprintf("%s[%d]", name, i), 8)
	}
	return b
}

func ret64(c *sym.Ctx, r codec.Res) *sym.Term {
	if r.Ret == nil {
		return c.BV(64, 1<<62)
	}
	return c.Sext(r.Ret, 64)
}

// plain restricts a value to what every target can hold: no NaN payloads,
// ASCII text where strings are UTF-16, declared members where enums are closed.
func plain(x *X, j *codec.Job, st *wire.Struct, v *wire.Val) {
	if v == nil {
		return
	}
	for _, f := range st.Flat() {
		if f.Kind == wire.KVoid || f.Const != "" || v.F[f.Name] == nil {
			continue
		}
		plainField(x, j, f, v.F[f.Name])
	}
}

// closedEnum tells whether a target's enum type admits declared members only.
func closedEnum(t string) bool {
	switch t {
	case "python", "java", "commonjs", "esmodule":
		return true
	}
	return false
}

func plainField(x *X, j *codec.Job, f *wire.Field, v *wire.Val) {
	if f.N > 0 {
		g := *f
		g.N, g.Bits = 0, f.ElemBits()
		for _, e := range v.Elems {
			plainField(x, j, &g, e)
		}
		return
	}
	switch {
	case f.Kind == wire.KStruct:
		plain(x, j, f.Struct, v)
	case f.Kind.Float():
		x.AssumeQuiet(x.Not(codec.IsNaN(x.Ctx, v.T)))
	case f.Kind == wire.KString:
		switch {
		case x.Text:
			x.AssumeQuiet(dyn.ValidUTF8(x.Ctx, v.B))
			if j.Target == "python" { // code points above 0xffff are outside
				for _, b := range v.B {
					x.AssumeQuiet(x.Ult(b, x.BV(8, 0xf0)))
				}
			}
		case asciiOnly(j.Target):
			for _, b := range v.B {
				x.AssumeQuiet(x.Ult(b, x.BV(8, 0x80)))
			}
		}
	case f.Kind == wire.KEnum:
		if closedEnum(j.Target) {
			ok := x.False()
			for _, m := range f.Enum.Values {
				ok = x.Or(ok, x.Eq(v.T, x.BV(v.T.W, m)))
			}
			x.AssumeQuiet(ok)
		}
	}
}

// minSize is the size of a frame whose variable-size content is empty.
func minSize(st *wire.Struct) int {
	n := 0
	for _, f := range st.Flat() {
		switch f.Kind {
		case wire.KString, wire.KBytes:
			n += f.Count()
		case wire.KStruct:
			n += f.Count() * minSize(f.Struct)
		}
	}
	fixed := 0
	for _, f := range st.Flat() {
		if f.Kind != wire.KString && f.Kind != wire.KBytes && f.Kind != wire.KStruct {
			fixed += f.Bits
		}
	}
	return n + fixed/8
}

// encodeItem asserts the documented wire image of one struct.
func encodeItem(j *codec.Job, st *wire.Struct, shape wire.Shape, tag string) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s%s", j.Target, j.Unit.Pkg, st.Name, tag), Target: j.Target, Traces: 1, Run: func(x *X) {
		v := wire.SymVal(x.Path, st, "v", shape, asciiOnly(j.Target))
		plain(x, j, st, v)
		fr := wire.Encode(x.Ctx, st, v)
		r := x.Rec(j)
		buf := zeros(x.Ctx, len(fr.Bytes))
		res := r.Encode(st, v, buf, 0)
		x.Check("encode completes", x.Bool(res.Exc == ""))
		checkFrame(x, "encode", st, res.Buf, fr, 0)
		x.Check("encode returns the frame size", x.Eq(ret64(x.Ctx, res), x.BV(64, uint64(len(fr.Bytes)))))
	}}
}

// checkFrame asserts each byte of a frame (all at once: one query).
func checkFrame(x *X, what string, st *wire.Struct, got []*sym.Term, fr wire.Frame, start int) {
	x.Check(what+" writes the documented bits", frameEq(x.Ctx, got, fr, start))
}

// decodeItem asserts the documented value of every field of one struct.
func decodeItem(j *codec.Job, st *wire.Struct, n int, start int, tag string) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s%s", j.Target, j.Unit.Pkg, st.Name, tag), Target: j.Target, Traces: 1, Run: func(x *X) {
		buf := symBuf(x.Path, "b", start+n)
		out := wire.Decode(x.Path, st, buf[start:])
		plain(x, j, st, out.V)
		r := x.Rec(j)
		init := wire.SymVal(x.Path, st, "old", fixedShape(1), asciiOnly(j.Target))
		plain(x, j, st, init)
		res, got := r.Decode(st, init, buf, start)
		x.Check("decode completes", x.Bool(res.Exc == ""))
		if out.OK {
			x.Check("decode returns the frame size", x.Eq(ret64(x.Ctx, res), x.BV(64, uint64(out.N))))
			x.Check("decoded fields carry the documented values", codec.EqStruct(x.Ctx, st, out.V, got))
		}
	}}
}

func funcNames(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func runC01(r *Run) {
	jobs := r.Prepare(r.jobsFor(r.scalarUnits(), r.Targets, nil))
	for _, j := range jobs {
		for _, st := range j.Unit.Structs {
			r.Add(encodeItem(j, st, fixedShape(0), ""))
		}
	}
	r.Bounds = append(r.Bounds, "one scalar field of every listed kind, width and byte order at each of the 8 start bits with live 1..7-bit neighbours; every field value symbolic; zero-filled buffer")
	r.Execute()
}

func runC02(r *Run) {
	ext := []string{"shift", "arith"}
	jobs := r.Prepare(r.jobsFor(r.scalarUnits(), r.Targets, func(t string, u *wire.Unit) [][]string {
		signed := false
		for _, s := range u.Structs {
			for _, f := range s.Fields {
				signed = signed || f.Kind.Signed()
			}
		}
		if !signed {
			return [][]string{nil}
		}
		return [][]string{{"-signext=" + ext[0]}, {"-signext=" + ext[1]}}
	}))
	for _, j := range jobs {
		for _, st := range j.Unit.Structs {
			r.Add(decodeItem(j, st, st.FixedBits()/8, 0, ""))
		}
	}
	r.Bounds = append(r.Bounds, "the scalar field family of C01; every buffer byte and the object's previous state symbolic; both -signext methods")
	r.Execute()
}
