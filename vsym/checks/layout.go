package checks

import (
	"fmt"
	"strings"

	"vsym/codec"
	"vsym/sym"
)

// The layout rules of the schema language, over exact (80-bit) integers.

const wideW = 80

// lnum is a number in a schema text.
type lnum struct {
	text string
	t    *sym.Term // 64 bits
}

// lgen hands out the numbers of a template.
type lgen struct {
	x    *X
	nums []*sym.Term
}

func (g *lgen) num(bits int) *lnum {
	i := len(g.nums)
	t := g.x.Zext(g.x.Var(fmt.Sprintf("n%d", i), bits), 64)
	g.nums = append(g.nums, t)
	return &lnum{fmt.Sprintf("$%d", i), t}
}

func (g *lgen) lit(v int64) *lnum { return &lnum{fmt.Sprint(v), g.x.SBV(64, v)} }

func (g *lgen) args(text string) []codec.HArg {
	a := []codec.HArg{codec.HText(g.x.Path, text)}
	for i := 0; i < 8; i++ {
		if i < len(g.nums) {
			a = append(a, codec.HInt(g.nums[i]))
		} else {
			a = append(a, codec.HInt(g.x.BV(64, 0)))
		}
	}
	return a
}

func (g *lgen) wide(t *sym.Term) *sym.Term { return g.x.Sext(t, wideW) }
func (g *lgen) w(v uint64) *sym.Term       { return g.x.BV(wideW, v) }

// limit is the first size that no 64-bit bit count can hold.
func (g *lgen) fits(t *sym.Term) *sym.Term {
	return g.x.Ult(t, g.x.Shl(g.w(1), g.w(63)))
}

// lsize is a size in brackets.
type lsize struct{ B, b *lnum }

func (s *lsize) text() string {
	switch {
	case s == nil:
		return ""
	case s.b == nil:
		return "[" + s.B.text + "]"
	case s.B == nil:
		return "[#" + s.b.text + "]"
	}
	return "[" + s.B.text + "#" + s.b.text + "]"
}

func (g *lgen) bits(s *lsize) *sym.Term {
	t := g.w(0)
	if s.B != nil {
		t = g.x.Mul(g.wide(s.B.t), g.w(8))
	}
	if s.b != nil {
		t = g.x.Add(t, g.wide(s.b.t))
	}
	return t
}

// sizeForm makes a size of a form: "", "B", "b", "Bb".
func (g *lgen) sizeForm(f string, bits int) *lsize {
	switch f {
	case "B":
		return &lsize{B: g.num(bits)}
	case "b":
		return &lsize{b: g.num(bits)}
	case "Bb":
		return &lsize{B: g.num(bits), b: g.num(bits)}
	}
	return nil
}

type lkind int

const (
	lBasic lkind = iota // also an enum
	lText               // string, bytes
	lVoid
	lConst
	lStruct
	lEmbed
)

type lenum struct {
	name string
	size *lsize
	vals []lval
}

type lval struct {
	text string
	t    *sym.Term // 64-bit value (signed); nil: the previous plus one
}

type lfield struct {
	kind lkind
	typ  string
	bits uint64 // of a basic type
	enum *lenum
	ref  *lstruct
	arr  *lnum
	size *lsize
	text string    // of a constant
	val  *sym.Term // of an integer constant, 64 bits signed
	sgn  bool      // signed integer type
}

type lstruct struct {
	name   string
	size   *lsize
	fields []*lfield
}

type lschema struct {
	enums   []*lenum
	structs []*lstruct
}

func (s *lschema) text() string {
	var b strings.Builder
	b.WriteString("package a;\n")
	for _, e := range s.enums {
		fmt.Fprintf(&b, "enum %s%s {\n", e.name, e.size.text())
		for i, v := range e.vals {
			if v.t == nil {
				fmt.Fprintf(&b, "  %s_V%d,\n", e.name, i)
			} else {
				fmt.Fprintf(&b, "  %s_V%d = %s,\n", e.name, i, v.text)
			}
		}
		b.WriteString("}\n")
	}
	for _, st := range s.structs {
		fmt.Fprintf(&b, "struct %s%s {\n", st.name, st.size.text())
		for i, f := range st.fields {
			t := f.typ
			if f.arr != nil {
				t += "<" + f.arr.text + ">"
			}
			switch f.kind {
			case lVoid:
				fmt.Fprintf(&b, "  void%s;\n", f.size.text())
			case lConst:
				fmt.Fprintf(&b, "  %s c%d%s = %s;\n", t, i, f.size.text(), f.text)
			case lEmbed:
				fmt.Fprintf(&b, "  %s;\n", t)
			default:
				fmt.Fprintf(&b, "  %s f%d%s;\n", t, i, f.size.text())
			}
		}
		b.WriteString("}\n")
	}
	return b.String()
}

// lout is what the rules say of a schema: acceptable, and the resolved numbers
// in the order of the observable.
type lout struct {
	ok  *sym.Term
	obs []any // string or 64-bit term
}

// representable tells whether a 64-bit signed value fits in w bits.
func (g *lgen) representable(v, w *sym.Term, signed bool) *sym.Term {
	x := g.x
	wv := g.wide(v)
	neg := x.Slt(v, x.BV(64, 0))
	if signed {
		half := x.Shl(g.w(1), x.Sub(w, g.w(1)))
		return x.And(x.Slt(wv, half), x.Sle(x.Neg(half), wv))
	}
	return x.And(x.Not(neg), x.Ult(wv, x.Shl(g.w(1), w)))
}

func (g *lgen) rules(s *lschema) *lout {
	x := g.x
	o := &lout{ok: x.True()}
	need := func(c *sym.Term) { o.ok = x.And(o.ok, c) }
	pos := func(t *sym.Term) { need(x.And(x.Ne(t, g.w(0)), g.fits(t))) }
	emit := func(a ...any) { o.obs = append(o.obs, a...) }
	low := func(t *sym.Term) *sym.Term { return x.Extract(t, 63, 0) }
	esize := map[*lenum]*sym.Term{}
	for _, e := range s.enums {
		w := g.bits(e.size)
		pos(w)
		need(x.Ule(w, g.w(64)))
		esize[e] = w
		emit("E", low(w))
		prev := g.x.SBV(wideW, -1)
		for _, v := range e.vals {
			cur := x.Add(prev, g.w(1))
			if v.t != nil {
				cur = g.wide(v.t)
			}
			need(x.And(x.Sle(g.w(0), cur), g.fits(cur)))
			need(x.Ult(cur, x.Shl(g.w(1), w)))
			emit("v", low(cur))
			prev = cur
		}
	}
	type rs struct {
		size  *sym.Term
		dyn   bool
		elems []any
		flat  []struct {
			align bool
			size  *sym.Term
		}
	}
	done := map[*lstruct]*rs{}
	for _, st := range s.structs {
		r := &rs{size: g.w(0)}
		var sub []any
		add := func(align bool, size *sym.Term) {
			if align {
				need(x.Eq(x.Extract(r.size, 2, 0), x.BV(3, 0)))
			}
			if size != nil {
				r.size = x.Add(r.size, size)
				need(g.fits(r.size))
			}
			r.flat = append(r.flat, struct {
				align bool
				size  *sym.Term
			}{align, size})
		}
		for _, f := range st.fields {
			var ty *sym.Term // nil: variable size
			align := false
			switch f.kind {
			case lBasic, lConst:
				if f.enum != nil {
					ty = esize[f.enum]
				} else {
					ty = g.w(f.bits)
				}
			case lText:
				align = true
			case lStruct, lEmbed:
				align = true
				if !done[f.ref].dyn {
					ty = done[f.ref].size
				}
			}
			if f.kind == lEmbed {
				for _, e := range done[f.ref].flat {
					add(e.align, e.size)
				}
				r.dyn = r.dyn || done[f.ref].dyn
				sub = append(sub, done[f.ref].elems...)
				continue
			}
			if f.arr != nil {
				need(x.Ne(f.arr.t, x.BV(64, 0)))
				if ty != nil {
					ty = x.Mul(g.wide(f.arr.t), ty)
					need(g.fits(ty))
				}
			}
			sz := ty
			if f.size != nil {
				sz = g.bits(f.size)
				pos(sz)
				if f.kind != lVoid {
					if ty == nil {
						need(x.False())
						ty = sz
					}
					need(x.Ule(sz, ty))
					switch {
					case f.kind == lStruct:
						need(x.Eq(sz, ty))
					case f.arr != nil:
						n := f.arr.t
						need(x.Eq(x.SRem(low(sz), n), x.BV(64, 0)))
					}
				}
			}
			if f.kind == lConst && f.val != nil {
				need(g.representable(f.val, sz, f.sgn))
			}
			add(align, sz)
			if sz == nil {
				r.dyn = true
				sub = append(sub, "F", x.SBV(64, -1))
			} else {
				sub = append(sub, "F", low(sz))
			}
			if f.kind == lConst && f.val != nil {
				sub = append(sub, "c", f.val)
			}
		}
		need(x.Eq(x.Extract(r.size, 2, 0), x.BV(3, 0)))
		if st.size != nil {
			t := g.bits(st.size)
			pos(t)
			need(x.Eq(t, r.size))
			if r.dyn {
				need(x.False())
			}
		}
		r.elems = sub
		done[st] = r
		d := "f"
		if r.dyn {
			d = "d"
		}
		emit("S", low(r.size), d)
		emit(sub...)
	}
	return o
}

// check compiles the schema and compares with the rules.
func (g *lgen) check(j *codec.Job, s *lschema) {
	x := g.x
	o := g.rules(s)
	rec := x.Rec(j)
	if f := rec.Call("HCompile", g.args(s.text())...); f != "" {
		x.Check("compiling does not panic", x.False())
		return
	}
	obs := rec.Ops[len(rec.Ops)-1].Res.Buf
	if !obs[0].IsConst() {
		sym.Unsupported("verdict is not concrete")
	}
	if obs[0].V == 'R' {
		x.Check("a schema that follows the rules is accepted", x.Not(o.ok))
		return
	}
	x.Check("a schema that breaks a rule is rejected", o.ok)
	obs = obs[1:]
	for _, e := range o.obs {
		switch v := e.(type) {
		case string:
			if len(obs) == 0 || !obs[0].IsConst() || obs[0].V != uint64(v[0]) {
				x.Check("the resolved schema has the declared elements", x.False())
				return
			}
			obs = obs[1:]
		case *sym.Term:
			if len(obs) < 8 {
				x.Check("the resolved schema has the declared elements", x.False())
				return
			}
			x.Check("the resolved sizes and values are the declared ones", x.Eq(x.BytesLE(obs[:8]), v))
			obs = obs[8:]
		}
	}
	if len(obs) != 0 {
		x.Check("the resolved schema has the declared elements", x.False())
	}
}

var basicBits = []struct {
	name string
	bits uint64
}{{"bool", 8}, {"int8", 8}, {"int16", 16}, {"int32", 32}, {"int64", 64}, {"uint8", 8}, {"uint16", 16}, {"uint32", 32}, {"uint64", 64}, {"float32", 32}, {"float64", 64}}

// runC14: accepted layouts.
func runC14(r *Run) {
	j, h := r.Harness("parse")
	if j == nil {
		return
	}
	h.Stub = h.StubParser
	r.Bounds = append(r.Bounds, "schemas of the listed shapes (up to three structs, three fields, one enum); every byte and bit count, array length and value is symbolic over all non-negative 63-bit integers (array lengths of arrays with a declared size: 1..255, sizes up to 16383 bits)")
	add := func(name string, f func(g *lgen) *lschema) {
		r.Add(&Item{Name: name, Target: "harness", Traces: 2, MaxPaths: 4000, Run: func(x *X) {
			g := &lgen{x: x}
			g.check(j, f(g))
		}})
	}
	one := func(fs ...*lfield) *lschema { return &lschema{structs: []*lstruct{{name: "S", fields: fs}}} }
	void := func(g *lgen, form string) *lfield { return &lfield{kind: lVoid, size: g.sizeForm(form, 63)} }
	inner := func(dyn bool) *lstruct {
		s := &lstruct{name: "R", fields: []*lfield{{kind: lBasic, typ: "uint8", bits: 8}, {kind: lBasic, typ: "uint16", bits: 16}}}
		if dyn {
			s.fields = append(s.fields, &lfield{kind: lText, typ: "string"})
		}
		return s
	}
	for _, b := range basicBits {
		for _, f := range []string{"", "B", "b", "Bb"} {
			add(fmt.Sprintf("%s/size-%s", b.name, f), func(g *lgen) *lschema {
				return one(&lfield{kind: lBasic, typ: b.name, bits: b.bits, size: g.sizeForm(f, 63)}, void(g, "b"))
			})
		}
		add(b.name+"/array", func(g *lgen) *lschema {
			return one(&lfield{kind: lBasic, typ: b.name, bits: b.bits, arr: g.num(63)}, void(g, "b"))
		})
		for _, f := range []string{"B", "b", "Bb"} {
			if f != "b" && r.Quick() && b.name != "uint16" && b.name != "float32" {
				continue
			}
			add(fmt.Sprintf("%s/array-size-%s", b.name, f), func(g *lgen) *lschema {
				return one(&lfield{kind: lBasic, typ: b.name, bits: b.bits, arr: g.num(8), size: g.sizeForm(f, map[string]int{"B": 11, "b": 14, "Bb": 11}[f])}, void(g, "b"))
			})
		}
	}
	for _, t := range []string{"string", "bytes"} {
		add(t+"/aligned", func(g *lgen) *lschema { return one(void(g, "Bb"), &lfield{kind: lText, typ: t}, void(g, "b")) })
		add(t+"/array", func(g *lgen) *lschema {
			return one(void(g, "b"), &lfield{kind: lText, typ: t, arr: g.num(63)}, void(g, "b"))
		})
		add(t+"/sized", func(g *lgen) *lschema { return one(&lfield{kind: lText, typ: t, size: g.sizeForm("Bb", 63)}) })
		add(t+"/two", func(g *lgen) *lschema {
			return one(&lfield{kind: lText, typ: t}, void(g, "b"), &lfield{kind: lText, typ: t}, void(g, "b"))
		})
		add(t+"/declared", func(g *lgen) *lschema {
			s := one(void(g, "B"), &lfield{kind: lText, typ: t})
			s.structs[0].size = g.sizeForm("Bb", 63)
			return s
		})
	}
	for _, f := range []string{"B", "b", "Bb"} {
		add("void-"+f, func(g *lgen) *lschema { return one(void(g, f)) })
		add("declared-"+f, func(g *lgen) *lschema {
			s := one(void(g, "Bb"), &lfield{kind: lBasic, typ: "uint16", bits: 16, size: g.sizeForm("b", 63)})
			s.structs[0].size = g.sizeForm(f, 63)
			return s
		})
		add("enum-"+f, func(g *lgen) *lschema {
			e := &lenum{name: "E", size: g.sizeForm(f, 63), vals: []lval{{}}}
			s := one(&lfield{kind: lBasic, typ: "E", enum: e}, void(g, "b"))
			s.enums = []*lenum{e}
			return s
		})
		add("enum-field-"+f, func(g *lgen) *lschema {
			e := &lenum{name: "E", size: g.sizeForm("b", 63), vals: []lval{{}}}
			s := one(&lfield{kind: lBasic, typ: "E", enum: e, size: g.sizeForm(f, 63)}, void(g, "b"))
			s.enums = []*lenum{e}
			return s
		})
	}
	add("enum-array", func(g *lgen) *lschema {
		e := &lenum{name: "E", size: &lsize{b: g.num(6)}, vals: []lval{{}}}
		s := one(&lfield{kind: lBasic, typ: "E", enum: e, arr: g.num(57)}, void(g, "b"))
		s.enums = []*lenum{e}
		return s
	})
	add("enum-array-size", func(g *lgen) *lschema {
		e := &lenum{name: "E", size: &lsize{b: g.num(6)}, vals: []lval{{}}}
		s := one(&lfield{kind: lBasic, typ: "E", enum: e, arr: g.num(5), size: g.sizeForm("b", 12)}, void(g, "b"))
		s.enums = []*lenum{e}
		return s
	})
	for _, dyn := range []bool{false, true} {
		n := map[bool]string{false: "fixed", true: "dynamic"}[dyn]
		two := func(fs ...*lfield) *lschema {
			return &lschema{structs: []*lstruct{fs[0].ref, {name: "S", fields: fs[1:]}}}
		}
		hold := func() *lfield { return &lfield{ref: inner(dyn)} }
		for _, f := range []string{"", "B", "b", "Bb"} {
			add(n+"/struct-"+f, func(g *lgen) *lschema {
				h := hold()
				return two(h, void(g, "b"), &lfield{kind: lStruct, typ: "R", ref: h.ref, size: g.sizeForm(f, 63)}, void(g, "b"))
			})
			add(n+"/struct-array-"+f, func(g *lgen) *lschema {
				h := hold()
				b := 63
				if f != "" {
					b = 8
				}
				return two(h, void(g, "b"), &lfield{kind: lStruct, typ: "R", ref: h.ref, arr: g.num(b), size: g.sizeForm(f, 12)}, void(g, "b"))
			})
		}
		add(n+"/embedded", func(g *lgen) *lschema {
			h := hold()
			return two(h, void(g, "b"), &lfield{kind: lEmbed, typ: "R", ref: h.ref}, void(g, "b"))
		})
		add(n+"/declared-inner", func(g *lgen) *lschema {
			h := hold()
			h.ref.size = g.sizeForm("Bb", 63)
			s := two(h, &lfield{kind: lStruct, typ: "R", ref: h.ref})
			s.structs[1].size = g.sizeForm("Bb", 63)
			return s
		})
	}
	for _, b := range basicBits {
		for _, f := range []string{"", "B", "b", "Bb"} {
			add(fmt.Sprintf("const/%s-%s", b.name, f), func(g *lgen) *lschema {
				c := &lfield{kind: lConst, typ: b.name, bits: b.bits, text: "1"}
				switch {
				case b.name == "bool":
					c.text = "true"
				case strings.HasPrefix(b.name, "float"):
					c.text = "1.5"
				default:
					c.text, c.val = "0", g.x.BV(64, 0)
				}
				c.sgn = strings.HasPrefix(b.name, "int")
				c.size = g.sizeForm(f, 63)
				return one(c, void(g, "b"))
			})
		}
	}
	add("three", func(g *lgen) *lschema {
		s := one(&lfield{kind: lBasic, typ: "uint64", bits: 64, size: g.sizeForm("b", 63)}, &lfield{kind: lBasic, typ: "int32", bits: 32, size: g.sizeForm("Bb", 63)}, &lfield{kind: lBasic, typ: "uint8", bits: 8, arr: g.num(63)})
		s.structs[0].size = g.sizeForm("Bb", 63)
		return s
	})
	add("void-void-void", func(g *lgen) *lschema { return one(void(g, "Bb"), void(g, "b"), void(g, "B")) })
	r.Execute()
}
