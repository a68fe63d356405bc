package checks

import (
	"fmt"
	"strings"

	"vsym/codec"
	"vsym/sym"
)

// runC15: enum values and integer literals.
func runC15(r *Run) {
	j, h := r.Harness("parse")
	if j == nil {
		return
	}
	h.Stub = h.StubParser
	r.Bounds = append(r.Bounds,
		"enums of up to four members, each explicit (symbolic over -(2^63-1)..2^63-1), default or taken from an earlier enum, of every width; integer constants of every type and symbolic width and value",
		"integer literals of every digit string: decimal to 19 digits, octal to 21 digits, hexadecimal to 16 digits (64 bits), both cases, with and without sign")
	add := func(name string, f func(g *lgen) *lschema) {
		r.Add(&Item{Name: name, Target: "harness", Traces: 2, MaxPaths: 4000, Run: func(x *X) {
			g := &lgen{x: x}
			g.check(j, f(g))
		}})
	}
	use := func(es ...*lenum) *lschema {
		s := &lschema{enums: es, structs: []*lstruct{{name: "S", fields: []*lfield{{kind: lBasic, typ: "uint8", bits: 8}}}}}
		return s
	}
	// a member: d(efault), p(ositive), n(egative), + (with the sign written)
	val := func(g *lgen, c byte) lval {
		if c == 'd' {
			return lval{}
		}
		n := g.num(63)
		switch c {
		case 'n':
			return lval{"-" + n.text, g.x.Neg(n.t)}
		case '+':
			return lval{"+" + n.text, n.t}
		}
		return lval{n.text, n.t}
	}
	for _, shape := range []string{"d", "p", "n", "+", "dd", "pd", "dp", "nd", "pp", "pdd", "dpd", "ddd", "dnd", "pdpd", "dddd", "pddd"} {
		for _, f := range []string{"B", "b"} {
			add(fmt.Sprintf("enum/%s-%s", shape, f), func(g *lgen) *lschema {
				e := &lenum{name: "E", size: g.sizeForm(f, 7)}
				for i := range shape {
					e.vals = append(e.vals, val(g, shape[i]))
				}
				return use(e)
			})
		}
	}
	// members taken from an earlier enum
	for _, shape := range []string{"p", "pd", "dpd"} {
		for k := range shape {
			add(fmt.Sprintf("enum-ref/%s%d", shape, k), func(g *lgen) *lschema {
				a := &lenum{name: "A", size: g.sizeForm("b", 7)}
				for i := range shape {
					a.vals = append(a.vals, val(g, shape[i]))
				}
				b := &lenum{name: "B", size: g.sizeForm("b", 7)}
				b.vals = []lval{{fmt.Sprintf("A_V%d", k), resolved(g, a)[k]}, {}}
				return use(a, b)
			})
		}
	}
	for _, b := range basicBits {
		if !strings.Contains(b.name, "int") {
			continue
		}
		for _, c := range []byte("pn+") {
			for _, f := range []string{"", "b", "Bb"} {
				add(fmt.Sprintf("const/%s%c-%s", b.name, c, f), func(g *lgen) *lschema {
					v := val(g, c)
					s := use()
					s.structs[0].fields = []*lfield{{kind: lConst, typ: b.name, bits: b.bits, text: v.text, val: v.t, sgn: b.name[0] == 'i', size: g.sizeForm(f, 63)}, {kind: lVoid, size: g.sizeForm("b", 63)}}
					return s
				})
			}
		}
		add("const-ref/"+b.name, func(g *lgen) *lschema {
			e := &lenum{name: "E", size: g.sizeForm("b", 7), vals: []lval{val(g, 'p'), {}}}
			s := use(e)
			s.structs[0].fields = []*lfield{{kind: lConst, typ: b.name, bits: b.bits, text: "E_V1", val: resolved(g, e)[1], sgn: b.name[0] == 'i', size: g.sizeForm("b", 63)}, {kind: lVoid, size: g.sizeForm("b", 63)}}
			return s
		})
	}
	// literals digit by digit
	digits := func(base, n int, sign string) {
		name := fmt.Sprintf("literal/base%d-%d%s", base, n, sign)
		r.Add(&Item{Name: name, Target: "harness", Traces: 2, MaxPaths: 4000, Run: func(x *X) { literal(x, j, base, n, sign) }})
	}
	for _, sign := range []string{"", "-"} {
		for n := 1; n <= 19; n++ {
			if r.Quick() && n > 12 && n < 17 {
				continue
			}
			digits(10, n, sign)
		}
		for n := 1; n <= 21; n++ {
			if r.Quick() && n > 8 && n < 19 {
				continue
			}
			digits(8, n, sign)
		}
		for n := 1; n <= 16; n++ {
			if r.Quick() && n > 8 && n < 14 {
				continue
			}
			digits(16, n, sign)
		}
	}
	r.Execute()
}

// resolved gives the 64-bit values of an enum's members.
func resolved(g *lgen, e *lenum) []*sym.Term {
	var out []*sym.Term
	prev := g.x.SBV(64, -1)
	for _, v := range e.vals {
		cur := v.t
		if cur == nil {
			cur = g.x.Add(prev, g.x.BV(64, 1))
		}
		out = append(out, cur)
		prev = cur
	}
	return out
}

// literal checks an int64 constant written with n symbolic digits.
func literal(x *X, j *codec.Job, base, n int, sign string) {
	pre, lo, hi := "", byte('0'), byte('9')
	switch base {
	case 16:
		pre = "0x"
	case 8:
		pre, hi = "0", '7'
	}
	var ds []*sym.Term
	v := x.BV(wideW, 0)
	for i := 0; i < n; i++ {
		c := x.Var(fmt.Sprintf("d%d", i), 8)
		in := func(a, b byte) *sym.Term { return x.And(x.Ule(x.BV(8, uint64(a)), c), x.Ule(c, x.BV(8, uint64(b)))) }
		d := x.Sub(c, x.BV(8, '0'))
		ok := in(lo, hi)
		if base == 16 {
			ok = x.OrN(ok, in('a', 'f'), in('A', 'F'))
			d = x.Ite(in('0', '9'), d, x.Add(x.And(x.Sub(c, x.BV(8, 'A')), x.BV(8, 31)), x.BV(8, 10)))
		}
		if i == 0 && base == 10 {
			ok = in('1', '9')
		}
		x.Assume(ok)
		ds = append(ds, c)
		v = x.Add(x.Mul(v, x.BV(wideW, uint64(base))), x.Zext(d, wideW))
	}
	fits := x.Ult(v, x.Shl(x.BV(wideW, 1), x.BV(wideW, 63)))
	text := "package a;\nstruct S {\n  int64 c0 = " + sign + pre + "@0;\n}\n"
	rec := x.Rec(j)
	if f := rec.Call("HCompileText", codec.HText(x.Path, text), codec.HStr(ds), codec.HInt(x.BV(64, 0)), codec.HInt(x.BV(64, 0))); f != "" {
		x.Check("compiling does not panic", x.False())
		return
	}
	obs := rec.Ops[len(rec.Ops)-1].Res.Buf
	if obs[0].V == 'R' {
		x.Check("a literal below 2^63 is accepted", x.Not(fits))
		return
	}
	x.Check("a literal of 2^63 or more is rejected", fits)
	want := x.Extract(v, 63, 0)
	if sign == "-" {
		want = x.Neg(want)
	}
	got := obs[len(obs)-8:]
	x.Check("the constant is the value of the literal", x.Eq(x.BytesLE(got), want))
}
