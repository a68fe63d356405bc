package checks

import (
	"fmt"

	"vsym/codec"
	"vsym/sym"
	"vsym/wire"
)

// bitSum is the number of bits of the scalar fields of a struct under construction.
func pad8(s *wire.Struct, bits int, name string) {
	if n := (8 - bits%8) % 8; n > 0 {
		s.Fields = append(s.Fields, &wire.Field{Name: name, Kind: wire.KU8, Bits: n})
	}
}

func fld(name string, k wire.Kind, bits int) *wire.Field {
	return &wire.Field{Name: name, Kind: k, Bits: bits}
}
func bigFld(name string, k wire.Kind, bits int) *wire.Field {
	return &wire.Field{Name: name, Kind: k, Bits: bits, Big: true}
}
func stf(name string, s *wire.Struct, n int) *wire.Field {
	return &wire.Field{Name: name, Kind: wire.KStruct, Struct: s, N: n}
}
func dyf(name string, k wire.Kind, n int) *wire.Field { return &wire.Field{Name: name, Kind: k, N: n} }
func arr(name string, k wire.Kind, n, elem int, big bool) *wire.Field {
	return &wire.Field{Name: name, Kind: k, N: n, Bits: n * elem, Big: big}
}

// enumVals gives an enum rich enough to exercise every bit.
func richEnum(name, pre string, w int) *wire.Enum {
	e := &wire.Enum{Name: name, Bits: w}
	seen := map[uint64]bool{}
	add := func(v uint64) {
		if w < 64 {
			v &= uint64(1)<<uint(w) - 1
		}
		if v > 1<<62 || seen[v] {
			return
		}
		seen[v] = true
		e.Names = append(e.Names, fmt.Sprintf("%s_%d", pre, len(e.Names)))
		e.Values = append(e.Values, v)
	}
	add(0)
	for i := 0; i < w; i++ {
		add(uint64(1) << uint(i))
	}
	add(^uint64(0))
	add(0x5555555555555555)
	add(0xAAAAAAAAAAAAAAAA)
	return e
}

// arrayUnits is the array family.
func (r *Run) arrayUnits() []*wire.Unit {
	us := &unitSet{max: 14, name: "ar"}
	type kw struct {
		k wire.Kind
		w int
	}
	var kws []kw
	if r.Quick() {
		kws = []kw{{wire.KBool, 1}, {wire.KBool, 8}, {wire.KBool, 3}, {wire.KU8, 8}, {wire.KU8, 5}, {wire.KI8, 8}, {wire.KI8, 3}, {wire.KU16, 16}, {wire.KU16, 12}, {wire.KI16, 11}, {wire.KI16, 16},
			{wire.KU32, 32}, {wire.KU32, 27}, {wire.KI32, 24}, {wire.KI32, 32}, {wire.KI32, 19}, {wire.KU64, 64}, {wire.KU64, 40}, {wire.KU64, 57}, {wire.KU64, 63}, {wire.KU32, 31}, {wire.KU32, 17}, {wire.KU16, 15}, {wire.KU16, 9}, {wire.KU8, 7},
			{wire.KI64, 63}, {wire.KI64, 53}, {wire.KI32, 31}, {wire.KI32, 17}, {wire.KI16, 15}, {wire.KI16, 9}, {wire.KI8, 7}, {wire.KI8, 2}, {wire.KI64, 64}, {wire.KI64, 33}, {wire.KI64, 61}, {wire.KF32, 32}, {wire.KF64, 64}, {wire.KF64, 48}}
	} else {
		for _, k := range append([]wire.Kind{wire.KBool, wire.KF32, wire.KF64}, intKinds...) {
			for i, w := range (&Run{Tier: "quick", Rng: r.Rng}).widths(k) {
				if i%2 == 0 || k.Width() <= 16 {
					kws = append(kws, kw{k, w})
				}
			}
		}
	}
	for i, x := range kws {
		for _, big := range []bool{false, true} {
			if big && x.w == 1 {
				continue
			}
			n := 3 + i%3
			if x.w <= 8 {
				n = 9
			}
			if x.w > 40 {
				n = 3
			}
			start := (i*3 + 1) % 8
			o := "L"
			if big {
				o = "M"
				start = (i * 5) % 8
				n = 2 + i%3
			}
			s := &wire.Struct{Name: fmt.Sprintf("A%s%sX%dN%dS%d", o, kindTag[x.k], x.w, n, start)}
			if start > 0 {
				s.Fields = append(s.Fields, fld("pre", wire.KU8, start))
			}
			s.Fields = append(s.Fields, arr("a", x.k, n, x.w, big))
			pad8(s, start+n*x.w, "post")
			us.add(s)
		}
	}
	u := us.unit()
	for _, w := range []int{3, 8, 12} {
		e := richEnum(fmt.Sprintf("ArE%d", w), fmt.Sprintf("ARE%d", w), w)
		u.Enums = append(u.Enums, e)
		s := &wire.Struct{Name: fmt.Sprintf("AEnum%d", w), Fields: []*wire.Field{fld("pre", wire.KU8, 5),
			{Name: "e", Kind: wire.KEnum, Enum: e, N: 5, Bits: 5 * w}, {Name: "f", Kind: wire.KEnum, Enum: e, N: 2, Bits: 2 * w, Big: true}}}
		pad8(s, 5+7*w, "post")
		u.Structs = append(u.Structs, s)
	}
	in := &wire.Struct{Name: "ArIn", Fields: []*wire.Field{fld("x", wire.KU16, 13), fld("y", wire.KI8, 3), bigFld("z", wire.KI32, 24)}}
	dyn := &wire.Struct{Name: "ArDy", Fields: []*wire.Field{fld("n", wire.KU8, 8), dyf("d", wire.KBytes, 0), fld("t", wire.KU8, 8)}}
	u.Structs = append(u.Structs, in, dyn,
		&wire.Struct{Name: "AStr", Fields: []*wire.Field{fld("h", wire.KU8, 8), stf("a", in, 6), fld("t", wire.KU8, 8)}},
		&wire.Struct{Name: "ADyn", Fields: []*wire.Field{fld("h", wire.KU8, 8), stf("a", dyn, 2), fld("t", wire.KU8, 8)}},
		&wire.Struct{Name: "AStrs", Fields: []*wire.Field{fld("h", wire.KU8, 8), dyf("s", wire.KString, 2), fld("t", wire.KU8, 8)}},
		&wire.Struct{Name: "ABys", Fields: []*wire.Field{fld("h", wire.KU8, 8), dyf("b", wire.KBytes, 2), fld("t", wire.KU8, 8)}},
		// arrays behind variable-size content: positions depend on a runtime offset
		&wire.Struct{Name: "ABeh", Fields: []*wire.Field{dyf("s", wire.KString, 0), fld("p", wire.KU8, 3), arr("a", wire.KI16, 5, 11, false), fld("q", wire.KU8, 6),
			arr("b", wire.KU32, 2, 20, true), arr("c", wire.KU8, 6, 8, false), stf("d", in, 2), fld("t", wire.KU8, 8)}})
	return us.units
}

// nestUnits is the nesting family.
func (r *Run) nestUnits() []*wire.Unit {
	u := &wire.Unit{Pkg: "nest"}
	e := richEnum("NeE", "NEE", 5)
	u.Enums = append(u.Enums, e)
	leaf := &wire.Struct{Name: "NeLeaf", Fields: []*wire.Field{fld("a", wire.KU8, 3), fld("b", wire.KI16, 12), fld("c", wire.KBool, 1), bigFld("d", wire.KU32, 24),
		{Name: "e", Kind: wire.KEnum, Enum: e, Bits: 5}, {Kind: wire.KVoid, Bits: 3}}}
	one := &wire.Struct{Name: "NeOne", Fields: []*wire.Field{fld("k", wire.KU8, 8), stf("l", leaf, 0), fld("m", wire.KU16, 16)}}
	two := &wire.Struct{Name: "NeTwo", Fields: []*wire.Field{fld("k", wire.KU8, 5), fld("kk", wire.KI8, 3), stf("o", one, 0), stf("p", leaf, 2), fld("t", wire.KU8, 8)}}
	emb := &wire.Struct{Name: "NeEmb", Fields: []*wire.Field{fld("ea", wire.KU8, 7), fld("eb", wire.KI32, 17)}}
	inl := &wire.Struct{Name: "NeInl", Fields: []*wire.Field{fld("ia", wire.KU8, 4), fld("ib", wire.KU8, 4), fld("ic", wire.KF32, 32)}}
	flat := &wire.Struct{Name: "NeFlat", Fields: []*wire.Field{fld("k", wire.KU8, 8), {Kind: wire.KEmbed, Struct: emb}, fld("m", wire.KU16, 16), {Kind: wire.KEmbed, Name: "inline", Struct: inl}, fld("t", wire.KI64, 64)}}
	deepEmb := &wire.Struct{Name: "NeDeep", Fields: []*wire.Field{{Kind: wire.KEmbed, Struct: flat}, stf("w", emb, 3), fld("z", wire.KU8, 8)}}
	dyn := &wire.Struct{Name: "NeDyn", Fields: []*wire.Field{fld("k", wire.KU8, 8), dyf("s", wire.KString, 0), stf("l", leaf, 0), fld("t", wire.KU8, 8)}}
	dyn2 := &wire.Struct{Name: "NeDyo", Fields: []*wire.Field{fld("k", wire.KU8, 3), fld("j", wire.KU8, 5), stf("d", dyn, 0), dyf("b", wire.KBytes, 0), stf("e", dyn, 0), stf("o", one, 0), fld("t", wire.KU16, 16)}}
	dynEmb := &wire.Struct{Name: "NeDem", Fields: []*wire.Field{dyf("q", wire.KBytes, 0), fld("r", wire.KI16, 9), fld("rr", wire.KU8, 7)}}
	dyn3 := &wire.Struct{Name: "NeDye", Fields: []*wire.Field{fld("k", wire.KU8, 8), {Kind: wire.KEmbed, Struct: dynEmb}, stf("l", leaf, 2), fld("t", wire.KU8, 8)}}
	sd := &wire.Struct{Name: "NeSd", Fields: []*wire.Field{fld("k", wire.KU8, 8), dyf("s", wire.KString, 0), fld("t", wire.KU8, 8)}}
	sdo := &wire.Struct{Name: "NeSdo", Fields: []*wire.Field{stf("d", sd, 0), dyf("b", wire.KBytes, 0), stf("e", sd, 0), fld("t", wire.KU8, 8)}}
	// nothing of fixed size before the variable content
	lead := &wire.Struct{Name: "NeLead", Fields: []*wire.Field{dyf("s", wire.KString, 0), stf("l", emb, 0), dyf("b", wire.KBytes, 0), stf("m", emb, 2), fld("t", wire.KU8, 8)}}
	leadEmb := &wire.Struct{Name: "NeLeadE", Fields: []*wire.Field{dyf("b", wire.KBytes, 0), {Kind: wire.KEmbed, Struct: emb}, stf("d", sd, 0)}}
	u.Structs = append(u.Structs, leaf, one, two, emb, flat, deepEmb, dyn, dyn2, dynEmb, dyn3, sd, sdo, lead, leadEmb)
	// the inline struct is defined inside NeFlat
	return []*wire.Unit{u}
}

// dynUnits is the variable-size family.
func (r *Run) dynUnits() []*wire.Unit {
	u := &wire.Unit{Pkg: "dyn"}
	add := func(n string, fs ...*wire.Field) { u.Structs = append(u.Structs, &wire.Struct{Name: n, Fields: fs}) }
	add("DyS", dyf("s", wire.KString, 0))
	add("DyB", dyf("b", wire.KBytes, 0))
	add("DySB", fld("h", wire.KU16, 16), dyf("s", wire.KString, 0), dyf("b", wire.KBytes, 0), fld("t", wire.KI32, 32))
	add("DyBS", fld("h", wire.KU8, 3), fld("g", wire.KU8, 5), dyf("b", wire.KBytes, 0), fld("m", wire.KU16, 13), fld("n", wire.KI8, 3), dyf("s", wire.KString, 0), bigFld("t", wire.KU32, 24))
	add("DySS", dyf("s", wire.KString, 0), dyf("t", wire.KString, 0))
	add("DyBB", dyf("b", wire.KBytes, 0), dyf("c", wire.KBytes, 0), fld("t", wire.KU8, 8))
	add("DyLead", dyf("b", wire.KBytes, 0), fld("o", wire.KBool, 1), bigFld("i", wire.KI16, 11), fld("u", wire.KU8, 4), fld("f", wire.KF32, 32))
	add("DyTail", fld("h", wire.KU64, 64), fld("f", wire.KF64, 64), dyf("b", wire.KBytes, 0))
	return []*wire.Unit{u}
}

// mixUnits is a small representative schema exercising every feature at once.
func (r *Run) mixUnits() []*wire.Unit {
	u := &wire.Unit{Pkg: "mix"}
	e := richEnum("MxE", "MXE", 6)
	e2 := richEnum("MxF", "MXF", 11)
	u.Enums = append(u.Enums, e, e2)
	sc := &wire.Struct{Name: "MxSc", Fields: []*wire.Field{fld("b", wire.KBool, 1), fld("u", wire.KU8, 6), fld("i", wire.KI16, 13), bigFld("w", wire.KU32, 28), fld("x", wire.KI32, 32), bigFld("y", wire.KI64, 49),
		{Name: "e", Kind: wire.KEnum, Enum: e, Bits: 6}, fld("q", wire.KU64, 64), fld("f", wire.KF32, 32), {Kind: wire.KVoid, Bits: 3}, {Name: "g", Kind: wire.KEnum, Enum: e2, Bits: 11, Big: true}, fld("d", wire.KF64, 64), fld("z", wire.KI8, 3)}}
	ar := &wire.Struct{Name: "MxAr", Fields: []*wire.Field{fld("p", wire.KU8, 3), arr("a", wire.KI16, 5, 11, false), arr("b", wire.KU8, 6, 8, false), arr("c", wire.KU32, 3, 18, true), arr("d", wire.KBool, 5, 1, false),
		{Name: "e", Kind: wire.KEnum, Enum: e, N: 3, Bits: 18}, arr("f", wire.KF32, 2, 32, false), fld("t", wire.KU8, 1)}}
	kc := &wire.Struct{Name: "MxKc", Fields: []*wire.Field{{Name: "m", Kind: wire.KU16, Bits: 12, Const: "0xA5C", CVal: 0xA5C}, fld("v", wire.KU8, 4), {Name: "", Kind: wire.KI8, Bits: 8, Const: "-2", CVal: 0xFE}, stf("s", sc, 0)}}
	dy := &wire.Struct{Name: "MxDy", Fields: []*wire.Field{fld("h", wire.KU8, 8), dyf("s", wire.KString, 0), fld("p", wire.KI16, 11), fld("r", wire.KU8, 5), dyf("b", wire.KBytes, 0), stf("n", kc, 0), fld("t", wire.KU16, 16)}}
	ks := &wire.Struct{Name: "MxKs", Fields: []*wire.Field{{Name: "m", Kind: wire.KU8, Bits: 8, Const: "0x5A", CVal: 0x5A}, fld("v", wire.KI8, 8)}}
	kd := &wire.Struct{Name: "MxKd", Fields: []*wire.Field{fld("h", wire.KU8, 8), dyf("s", wire.KString, 0), stf("n", ks, 0), dyf("b", wire.KBytes, 0), fld("t", wire.KU8, 8)}}
	u.Structs = append(u.Structs, sc, ar, kc, dy, ks, kd)
	return []*wire.Unit{u}
}

// defStructs are the structs of a unit including inline definitions.
func allStructs(u *wire.Unit) []*wire.Struct { return u.Structs }

// encAt encodes into a buffer with margins at a start position.
func encAt(j *codec.Job, st *wire.Struct, dynLen, start int, dirty bool) *Item {
	tag := fmt.Sprintf("#enc.len%d.at%d", dynLen, start)
	if dirty {
		tag += ".dirty"
	}
	return &Item{Name: fmt.Sprintf("%s/%s/%s%s", j.Target, j.Unit.Pkg, st.Name, tag), Target: j.Target, Traces: 1, Run: func(x *X) {
		v := wire.SymVal(x.Path, st, "v", fixedShape(dynLen), asciiOnly(j.Target))
		plain(x, j, st, v)
		fr := wire.Encode(x.Ctx, st, v)
		r := x.Rec(j)
		n := len(fr.Bytes)
		buf := zeros(x.Ctx, start+n+2)
		if dirty {
			buf = symBuf(x.Path, "old", start+n+2)
		}
		res := r.Encode(st, v, buf, start)
		x.Check("encode completes", x.Bool(res.Exc == ""))
		if res.Exc != "" {
			return
		}
		checkFrame(x, "encode", st, res.Buf, fr, start)
		x.Check("encode returns the frame size", x.Eq(ret64(x.Ctx, res), x.BV(64, uint64(n))))
		x.Check("encode leaves bytes outside the frame alone", outsideEq(x.Ctx, res.Buf, buf, start, n))
		if f, ok := r.EncodeFresh(st, v); ok && start == 0 && !dirty {
			x.Check("encode to a new buffer completes", x.Bool(f.Exc == ""))
			if f.Exc == "" {
				x.Check("encode to a new buffer has the frame size", x.Bool(len(f.Buf) == n))
				if len(f.Buf) == n {
					checkFrame(x, "encode to a new buffer", st, f.Buf, fr, 0)
				}
			}
		}
	}}
}

// decAt decodes a symbolic buffer of n bytes behind a start position.
func decAt(j *codec.Job, st *wire.Struct, n, start int) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s#dec.len%d.at%d", j.Target, j.Unit.Pkg, st.Name, n, start), Target: j.Target, Traces: 2, MaxPaths: 6000, Run: func(x *X) {
		buf := symBuf(x.Path, "b", start+n)
		out := wire.DecodeComplete(x.Path, st, buf[start:])
		plain(x, j, st, out.V)
		if !out.OK && !out.BadConst {
			x.Abort("frame is incomplete")
		}
		r := x.Rec(j)
		init := wire.SymVal(x.Path, st, "old", fixedShape(1), asciiOnly(j.Target))
		plain(x, j, st, init)
		res, got := r.Decode(st, init, buf, start)
		x.Check("decode raises nothing", x.Bool(res.Exc == ""))
		if res.Exc != "" {
			return
		}
		if out.BadConst {
			x.Check("decode of a wrong constant returns -1", x.Eq(ret64(x.Ctx, res), x.SBV(64, -1)))
			return
		}
		x.Check("decode returns the frame size", x.Eq(ret64(x.Ctx, res), x.BV(64, uint64(out.N))))
		x.Check("decoded fields carry the documented values", codec.EqStruct(x.Ctx, st, out.V, got))
	}}
}

// addBoth queues encode and decode items of a struct for some dynamic lengths.
func (r *Run) addBoth(j *codec.Job, st *wire.Struct, lens []int, extra int, starts []int) {
	for i, start := range starts {
		if !st.Dynamic() {
			r.Add(encAt(j, st, 0, start, false))
			r.Add(decAt(j, st, st.FixedBits()/8, start))
			continue
		}
		for _, n := range lens {
			r.Add(encAt(j, st, n, start, false))
		}
		m := minSize(st)
		for k := 0; k <= extra; k++ {
			if i > 0 && k < extra {
				continue
			}
			r.Add(decAt(j, st, m+k, start))
		}
	}
}

func runC04(r *Run) {
	unrolls := []string{"0", "1", "4", "-1"}
	units := r.arrayUnits()
	jobs := r.Prepare(r.jobsFor(units, r.Targets, func(t string, u *wire.Unit) [][]string {
		var out [][]string
		for i, n := range unrolls {
			if r.Quick() && i == 1 {
				continue
			}
			o := []string{"-unroll=" + n}
			switch n {
			case "0":
				o = append(o, "-signext=arith")
			case "1", "-1":
				o = append(o, "-signext=shift")
			}
			out = append(out, o)
		}
		return out
	}))
	for i, j := range jobs {
		for k, st := range j.Unit.Structs {
			starts := []int{0}
			if (i+k)%2 == 0 || !r.Quick() {
				starts = append(starts, 1+(i+k)%3)
			}
			if r.Quick() && st.Dynamic() {
				starts = starts[:1]
				r.addBoth(j, st, []int{0, 2}, 2, starts)
				continue
			}
			r.addBoth(j, st, []int{0, 1, 3}, 3, starts)
		}
	}
	r.Bounds = append(r.Bounds, "arrays of 2..9 elements of every element kind at listed widths and start bits, both byte orders, -unroll 0/4/-1 (thorough: and 1); every element and buffer byte symbolic; variable-size elements up to 2 bytes (thorough 3)")
	r.Execute()
}

func runC05(r *Run) {
	jobs := r.Prepare(r.jobsFor(r.nestUnits(), r.Targets, func(t string, u *wire.Unit) [][]string {
		return [][]string{nil, {"-unroll=0"}}
	}))
	ex := 2
	if !r.Quick() {
		ex = 4
	}
	for _, j := range jobs {
		for _, st := range j.Unit.Structs {
			r.addBoth(j, st, []int{0, 1, 3}, ex, []int{0, 3})
		}
	}
	r.Bounds = append(r.Bounds, "structs nested to depth 3, embedded (referenced and inline), repeated 2-3 times, fixed and variable-size; start positions 0 and 3; variable content up to 3 bytes when encoding and 2 (thorough 4) when decoding; all values and buffer bytes symbolic")
	r.Execute()
}

func runC06(r *Run) {
	jobs := r.Prepare(r.jobsFor(r.dynUnits(), r.Targets, func(t string, u *wire.Unit) [][]string {
		if t == "kotlin" {
			return [][]string{nil}
		}
		return [][]string{nil, {"-memcpy"}}
	}))
	for _, j := range jobs {
		for _, st := range j.Unit.Structs {
			lens := []int{0, 1, 2, 5}
			if r.Quick() {
				lens = []int{0, 1, 3}
			}
			ex := 3
			if !r.Quick() {
				ex = 5
			}
			r.addBoth(j, st, lens, ex, []int{0, 2})
			if asciiOnly(j.Target) {
				for i, is := range countText(st) {
					for n := 2; is && n <= 5; n++ {
						if n == 5 && r.Quick() {
							continue
						}
						r.Add(textItem(j, st, n, i, 2*(i%2)))
					}
				}
			}
			// the varint gains a byte at 128
			if st.Name == "DyBB" || st.Name == "DyS" {
				r.Add(encAt(j, st, 127, 0, false))
				r.Add(encAt(j, st, 128, 0, false))
				r.Add(longDec(j, st, 128))
				r.Add(longDec(j, st, 127))
				if !r.Quick() {
					r.Add(encAt(j, st, 300, 1, false))
					r.Add(longDec(j, st, 300))
				}
			}
		}
	}
	r.Bounds = append(r.Bounds, "string and bytes fields in 7 arrangements; contents of 0,1,3 bytes (thorough 0,1,2,5) plus 127 and 128 (the second varint byte; thorough 300) with every content byte symbolic; symbolic buffers up to 3 (5) bytes beyond the smallest frame; with and without -memcpy; text of every mixture of one to four byte characters that makes 2 to 4 (5) bytes where strings are UTF-16 (Python: up to three byte characters), ASCII in their other items")
	r.Execute()
}

// textItem codes text of every mixture of one to four byte characters that
// makes n bytes in one string of a struct.
func textItem(j *codec.Job, st *wire.Struct, n, which, start int) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s#text%d.of%d.at%d", j.Target, j.Unit.Pkg, st.Name, n, which, start), Target: j.Target, Traces: 2, Run: func(x *X) {
		seen := -1
		v := wire.SymVal(x.Path, st, "v", func(path string) int {
			seen++
			if seen == which {
				return n
			}
			return 1
		}, false)
		x.Text = true
		plain(x, j, st, v)
		fr := wire.Encode(x.Ctx, st, v)
		size := x.BV(64, uint64(len(fr.Bytes)))
		r := x.Rec(j)
		es := r.EncodeSize(st, v)
		x.Check("encode_size of text is its UTF-8 size", x.And(x.Bool(es.Exc == ""), x.Eq(ret64(x.Ctx, es), size)))
		en := r.Encode(st, v, zeros(x.Ctx, start+len(fr.Bytes)), start)
		x.Check("encode of text raises nothing", x.Bool(en.Exc == ""))
		x.Check("encode returns the frame size", x.Eq(ret64(x.Ctx, en), size))
		x.Check("text is encoded as UTF-8", frameEq(x.Ctx, en.Buf, fr, start))
		res, got := r.Decode(st, nil, append(zeros(x.Ctx, start), fr.Bytes...), start)
		x.Check("decode of text raises nothing", x.Bool(res.Exc == ""))
		x.Check("decode of text returns the frame size", x.Eq(ret64(x.Ctx, res), size))
		x.Check("decoded text is the encoded text", textEq(x.Ctx, st, v, got))
	}}
}

// textEq compares the strings and bytes of two objects.
func textEq(c *sym.Ctx, st *wire.Struct, a, b *wire.Val) *sym.Term {
	r := c.True()
	for _, f := range st.Flat() {
		x, y := a.F[f.Name], b.F[f.Name]
		switch {
		case f.Kind == wire.KString || f.Kind == wire.KBytes:
			r = c.And(r, codec.EqVal(c, f, x, y))
		case f.Kind == wire.KStruct && f.N == 0:
			r = c.And(r, textEq(c, f.Struct, x, y))
		case f.Kind == wire.KStruct:
			for i := range x.Elems {
				r = c.And(r, textEq(c, f.Struct, x.Elems[i], y.Elems[i]))
			}
		}
	}
	return r
}

// countText lists the strings and bytes of a struct in field order.
func countText(st *wire.Struct) (isStr []bool) {
	for _, f := range st.Flat() {
		for i := 0; i < f.Count(); i++ {
			switch f.Kind {
			case wire.KString, wire.KBytes:
				isStr = append(isStr, f.Kind == wire.KString)
			case wire.KStruct:
				isStr = append(isStr, countText(f.Struct)...)
			}
		}
	}
	return isStr
}

// longDec decodes a frame of known length with symbolic content.
func longDec(j *codec.Job, st *wire.Struct, n int) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s#dec.content%d", j.Target, j.Unit.Pkg, st.Name, n), Target: j.Target, Traces: 1, Run: func(x *X) {
		v := wire.SymVal(x.Path, st, "v", fixedShape(n), asciiOnly(j.Target))
		plain(x, j, st, v)
		fr := wire.Encode(x.Ctx, st, v)
		r := x.Rec(j)
		ds := r.DecodeSize(st, fr.Bytes, 0)
		x.Check("decode_size raises nothing", x.Bool(ds.Exc == ""))
		x.Check("decode_size accepts the whole frame", x.Eq(ret64(x.Ctx, ds), x.BV(64, uint64(len(fr.Bytes)))))
		res, got := r.Decode(st, nil, fr.Bytes, 0)
		x.Check("decode raises nothing", x.Bool(res.Exc == ""))
		x.Check("decode returns the frame size", x.Eq(ret64(x.Ctx, res), x.BV(64, uint64(len(fr.Bytes)))))
		x.Check("decoded fields carry the documented values", codec.EqStruct(x.Ctx, st, v, got))
	}}
}

func prefixOK(c *sym.Ctx, ret *sym.Term, avail, frame int) *sym.Term {
	n := c.Neg(ret)
	return c.And(c.Slt(ret, c.BV(64, 0)), c.And(c.Sgt(n, c.BV(64, uint64(avail))), c.Sle(n, c.BV(64, uint64(frame)))))
}

// sizeItem relates the size functions to a frame, its extension and its prefixes.
func sizeItem(j *codec.Job, st *wire.Struct, dynLen, start int) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s#size.len%d.at%d", j.Target, j.Unit.Pkg, st.Name, dynLen, start), Target: j.Target, Traces: 1, Run: func(x *X) {
		v := wire.SymVal(x.Path, st, "v", fixedShape(dynLen), asciiOnly(j.Target))
		plain(x, j, st, v)
		fr := wire.Encode(x.Ctx, st, v)
		n := len(fr.Bytes)
		want := x.BV(64, uint64(n))
		r := x.Rec(j)
		es := r.EncodeSize(st, v)
		x.Check("encode_size raises nothing", x.Bool(es.Exc == ""))
		x.Check("encode_size is the frame size", x.Eq(ret64(x.Ctx, es), want))
		en := r.Encode(st, v, zeros(x.Ctx, start+n), start)
		x.Check("encode returns encode_size", x.And(x.Bool(en.Exc == ""), x.Eq(ret64(x.Ctx, en), want)))
		frame := append(symBuf(x.Path, "pre", start), fr.Bytes...)
		for _, extra := range []int{0, 1, 3} {
			buf := append(cloneT(frame), symBuf(x.Path, "rest", extra)...)
			ds := r.DecodeSize(st, buf, start)
			x.Check(fmt.Sprintf("decode_size of a complete frame with %d bytes behind it", extra), x.And(x.Bool(ds.Exc == ""), x.Eq(ret64(x.Ctx, ds), want)))
			if extra == 1 {
				dr, _ := r.Decode(st, nil, buf, start)
				x.Check("decode consumes exactly the frame", x.And(x.Bool(dr.Exc == ""), x.Eq(ret64(x.Ctx, dr), want)))
			}
		}
		for k := 0; k < n; k++ {
			if n > 24 && k > 6 && k < n-6 && k%7 != 0 {
				continue
			}
			ds := r.DecodeSize(st, frame[:start+k], start)
			x.Check(fmt.Sprintf("decode_size of the %d-byte prefix asks for more, but not more than the frame", k), x.And(x.Bool(ds.Exc == ""), prefixOK(x.Ctx, ret64(x.Ctx, ds), k, n)))
		}
	}}
}

func cloneT(b []*sym.Term) []*sym.Term { return append([]*sym.Term{}, b...) }

func runC07(r *Run) {
	var units []*wire.Unit
	units = append(units, r.dynUnits()...)
	units = append(units, r.nestUnits()...)
	units = append(units, r.mixUnits()...)
	units = append(units, lastUnit(r.arrayUnits()))
	jobs := r.Prepare(r.jobsFor(units, r.Targets, func(t string, u *wire.Unit) [][]string {
		if u.Pkg[:2] == "ar" {
			return [][]string{nil, {"-unroll=0"}}
		}
		return [][]string{nil}
	}))
	for _, j := range jobs {
		for _, st := range j.Unit.Structs {
			if !st.Dynamic() {
				r.Add(sizeItem(j, st, 0, 0))
				continue
			}
			lens := []int{0, 1, 2}
			if !r.Quick() {
				lens = []int{0, 1, 2, 4}
			}
			for _, n := range lens {
				r.Add(sizeItem(j, st, n, n%2))
			}
			if st.Name == "DyB" || st.Name == "DySB" {
				r.Add(sizeItem(j, st, 128, 0))
			}
		}
	}
	r.Bounds = append(r.Bounds, "the variable-size, nesting and mixed schemas with symbolic values of content length 0..2 (thorough 4) and 128; every prefix (frames over 24 bytes: both ends and a sample); 0, 1 and 3 symbolic bytes behind the frame")
	r.Execute()
}

func lastUnit(us []*wire.Unit) *wire.Unit { return us[len(us)-1] }

// badItem feeds n arbitrary bytes to decode_size and decode.
func badItem(j *codec.Job, st *wire.Struct, n, start int) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s#any%d.at%d", j.Target, j.Unit.Pkg, st.Name, n, start), Target: j.Target, Traces: 3, MaxPaths: 20000, Run: func(x *X) {
		buf := symBuf(x.Path, "b", start+n)
		r := x.Rec(j)
		out := wire.DecodeLim(x.Path, st, buf[start:], limits(j.Target))
		plain(x, j, st, out.V)
		if out.BadConst {
			x.Assume(x.True())
		}
		ds := r.DecodeSize(st, buf, start)
		x.Check("decode_size raises nothing and stays inside its input", x.Bool(ds.Exc == ""))
		if ds.Exc != "" {
			return
		}
		rs := ret64(x.Ctx, ds)
		switch {
		case out.Short:
			x.Check("decode_size reports missing bytes", x.And(x.Slt(rs, x.BV(64, 0)), x.Sgt(x.Neg(rs), x.BV(64, uint64(n)))))
		case out.BadLen && j.Target == "python":
		case out.BadLen:
			x.Check("decode_size rejects an oversized length", x.Slt(rs, x.BV(64, 0)))
		default:
			x.Check("decode_size is the frame size", x.Eq(rs, x.BV(64, uint64(out.N))))
		}
		if out.BadLen && j.Target == "python" { // unbounded integers: such a length is representable
			return
		}
		if checksLength(j.Target) || (out.OK || out.BadConst) {
			res, got := r.Decode(st, nil, buf, start)
			x.Check("decode raises nothing and stays inside its input", x.Bool(res.Exc == ""))
			if res.Exc != "" {
				return
			}
			if !out.OK {
				x.Check("decode of missing or invalid data returns -1", x.Eq(ret64(x.Ctx, res), x.SBV(64, -1)))
				return
			}
			x.Check("decode returns the frame size", x.Eq(ret64(x.Ctx, res), x.BV(64, uint64(out.N))))
			x.Check("decoded fields carry the documented values", codec.EqStruct(x.Ctx, st, out.V, got))
		}
	}}
}

func limits(t string) wire.Limits {
	switch t {
	case "java", "csharp", "commonjs", "esmodule":
		return wire.Limits32
	}
	return wire.Limits64
}

// checksLength tells whether decode itself knows how long its input is.
func checksLength(t string) bool { return t != "c" && t != "cpp" }

func runC08(r *Run) {
	var units []*wire.Unit
	units = append(units, r.dynUnits()...)
	units = append(units, r.nestUnits()...)
	units = append(units, lastUnit(r.arrayUnits()))
	mx := r.mixUnits()[0]
	units = append(units, mx)
	jobs := r.Prepare(r.jobsFor(units, r.Targets, func(t string, u *wire.Unit) [][]string {
		if u.Pkg == "dyn" && t != "kotlin" {
			return [][]string{nil, {"-memcpy"}}
		}
		if u.Pkg[:2] == "ar" {
			return [][]string{nil, {"-unroll=0"}}
		}
		return [][]string{nil}
	}))
	for _, j := range jobs {
		for _, st := range j.Unit.Structs {
			if st.Name == "NeDyo" { // too many ways to place three terminators in 33 bytes; NeSdo has the same shape
				continue
			}
			m := minSize(st)
			hi := m + 2
			if !st.Dynamic() {
				hi = m
			}
			if !r.Quick() && st.Dynamic() {
				hi = m + 4
			}
			for n := 0; n <= hi; n++ {
				if m > 12 && n > 3 && n < m-3 && n%5 != 0 || m > 30 && st.Dynamic() && n > 7 {
					continue
				}
				r.Add(badItem(j, st, n, n%2))
			}
		}
		// long length prefixes: nothing but the varint matters
		for _, st := range j.Unit.Structs {
			if st.Name == "DyB" || st.Name == "DyBB" {
				for _, n := range []int{5, 6, 9, 10, 11, 12} {
					if n > minSize(st)+2 && (n < 9 || st.Name == "DyB") {
						r.Add(badItem(j, st, n, 0))
					}
				}
			}
		}
	}
	r.Bounds = append(r.Bounds, "every buffer content of every listed length from 0 to 2 (thorough 4) bytes beyond the smallest frame, for the variable-size, nesting, array and mixed schemas; length prefixes of up to 12 bytes")
	r.Execute()
}

func runC09(r *Run) {
	var units []*wire.Unit
	units = append(units, r.dynUnits()...)
	units = append(units, r.nestUnits()...)
	units = append(units, r.mixUnits()...)
	au := r.arrayUnits()
	units = append(units, au...)
	ku := r.constUnits()
	units = append(units, lastUnit(ku), ku[0])
	if !r.Quick() {
		units = append(units, ku[1:len(ku)-1]...)
	}
	su := r.frameScalarUnits()
	units = append(units, su...)
	jobs := r.Prepare(r.jobsFor(units, r.Targets, func(t string, u *wire.Unit) [][]string {
		if u.Pkg[:2] == "ar" {
			return [][]string{{"-unroll=0"}, nil}
		}
		return [][]string{nil}
	}))
	for i, j := range jobs {
		for k, st := range j.Unit.Structs {
			start := (i + k) % 3
			if !st.Dynamic() {
				r.Add(encAt(j, st, 0, start, true))
				continue
			}
			for _, n := range []int{0, 2} {
				r.Add(encAt(j, st, n, start, true))
			}
		}
	}
	r.Bounds = append(r.Bounds, "every previous buffer content (symbolic) for the scalar, constant, array, nesting, variable-size and mixed schemas; start positions 0..2; two bytes of margin behind the frame")
	r.Execute()
}

// frameScalarUnits is a thin slice of the scalar family.
func (r *Run) frameScalarUnits() []*wire.Unit {
	us := &unitSet{max: 20, name: "fs"}
	for _, big := range []bool{false, true} {
		o := "L"
		if big {
			o = "M"
		}
		for _, k := range append([]wire.Kind{wire.KBool, wire.KF32, wire.KF64}, intKinds...) {
			ws := []int{k.Width(), k.Width()/2 + 1, 3}
			if k == wire.KBool {
				ws = []int{1, 5}
			}
			if !r.Quick() {
				ws = (&Run{Tier: "quick", Rng: r.Rng}).widths(k)
			}
			for _, w := range ws {
				us.add(spread(fmt.Sprintf("F%s%sX%d", o, kindTag[k], w), func(i int) *wire.Field {
					return &wire.Field{Name: fmt.Sprintf("f%d", i), Kind: k, Bits: w, Big: big}
				}, w, []int{0, 3, 6, 7}))
			}
		}
	}
	return us.units
}

// tripItem encodes with one target and decodes with another.
func tripItem(a, b *codec.Job, st *wire.Struct, dynLen int) *Item {
	return &Item{Name: fmt.Sprintf("%s->%s/%s/%s#len%d", a.Target, b.Target, a.Unit.Pkg, st.Name, dynLen), Target: b.Target, Traces: 1, Run: func(x *X) {
		ascii := asciiOnly(a.Target) || asciiOnly(b.Target)
		v := wire.SymVal(x.Path, st, "v", fixedShape(dynLen), ascii)
		plain(x, a, st, v)
		plain(x, b, st, v)
		fits(x, st, v)
		ra, rb := x.Rec(a), x.Rec(b)
		es := ra.EncodeSize(st, v)
		n := ret64(x.Ctx, es)
		if es.Exc != "" || !n.IsConst() {
			x.Check("encode_size is a number", x.False())
			return
		}
		// the buffer holds old content: nothing may depend on it
		en := ra.Encode(st, v, symBuf(x.Path, "old", int(n.V)), 0)
		x.Check("encode completes", x.Bool(en.Exc == ""))
		if en.Exc != "" {
			return
		}
		x.Check("encode fills what encode_size announced", x.Eq(ret64(x.Ctx, en), n))
		res, got := rb.Decode(st, nil, en.Buf, 0)
		x.Check("decode of what encode produced succeeds", x.And(x.Bool(res.Exc == ""), x.Eq(ret64(x.Ctx, res), n)))
		if res.Exc != "" {
			return
		}
		x.Check("every field comes back", codec.EqStruct(x.Ctx, st, v, got))
	}}
}

// tripText codes text of every mixture of one to four byte characters that makes
// n bytes in one string, from one target to another.
func tripText(a, b *codec.Job, st *wire.Struct, n, which int) *Item {
	return &Item{Name: fmt.Sprintf("%s->%s/%s/%s#text%d.of%d", a.Target, b.Target, a.Unit.Pkg, st.Name, n, which), Target: b.Target, Traces: 1, Run: func(x *X) {
		seen := -1
		v := wire.SymVal(x.Path, st, "v", func(path string) int {
			seen++
			if seen == which {
				return n
			}
			return 1
		}, false)
		x.Text = true
		plain(x, a, st, v)
		plain(x, b, st, v)
		fits(x, st, v)
		ra, rb := x.Rec(a), x.Rec(b)
		n := ret64(x.Ctx, ra.EncodeSize(st, v))
		x.Check("encode_size is a number", x.Bool(n.IsConst()))
		if !n.IsConst() {
			return
		}
		en := ra.Encode(st, v, zeros(x.Ctx, int(n.V)), 0)
		x.Check("encode completes", x.Bool(en.Exc == ""))
		if en.Exc != "" {
			return
		}
		res, got := rb.Decode(st, nil, en.Buf, 0)
		x.Check("decode of what encode produced succeeds", x.And(x.Bool(res.Exc == ""), x.Eq(ret64(x.Ctx, res), n)))
		if res.Exc == "" {
			x.Check("text comes back", textEq(x.Ctx, st, v, got))
		}
	}}
}

// fits assumes that values are representable in their declared widths.
func fits(x *X, st *wire.Struct, v *wire.Val) {
	for _, f := range st.Flat() {
		if f.Kind == wire.KVoid || f.Const != "" {
			continue
		}
		fitsField(x, f, v.F[f.Name])
	}
}

func fitsField(x *X, f *wire.Field, v *wire.Val) {
	if f.N > 0 {
		g := *f
		g.N, g.Bits = 0, f.ElemBits()
		for _, e := range v.Elems {
			fitsField(x, &g, e)
		}
		return
	}
	if f.Kind == wire.KStruct {
		fits(x, f.Struct, v)
		return
	}
	if v.T == nil || v.T.W <= f.Bits || f.Kind == wire.KBool {
		return
	}
	low := x.Extract(v.T, f.Bits-1, 0)
	if f.Kind.Signed() {
		x.AssumeQuiet(x.Eq(x.Sext(low, v.T.W), v.T))
	} else {
		x.AssumeQuiet(x.Eq(x.Zext(low, v.T.W), v.T))
	}
}

func runC13(r *Run) {
	var units []*wire.Unit
	units = append(units, r.mixUnits()...)
	units = append(units, r.nestUnits()...)
	jobs := r.Prepare(r.jobsFor(units, r.Targets, nil))
	by := map[string][]*codec.Job{}
	for _, j := range jobs {
		by[j.Unit.Pkg] = append(by[j.Unit.Pkg], j)
	}
	self := r.Prepare(r.jobsFor(append(r.arrayUnits(), r.dynUnits()...), r.Targets, nil))
	for _, js := range by {
		for _, a := range js {
			for _, b := range js {
				for k, st := range a.Unit.Structs {
					if !st.Dynamic() {
						r.Add(tripItem(a, b, st, 0))
						continue
					}
					r.Add(tripItem(a, b, st, 1+k%2))
				}
			}
		}
	}
	for _, a := range self {
		for _, st := range a.Unit.Structs {
			r.Add(tripItem(a, a, st, 2))
		}
	}
	for _, a := range self {
		for _, b := range self {
			if !asciiOnly(a.Target) || !asciiOnly(b.Target) || a.Unit.Pkg != b.Unit.Pkg {
				continue
			}
			for _, st := range a.Unit.Structs {
				for i, is := range countText(st) {
					for n := 3; is && n <= 4; n++ {
						r.Add(tripText(a, b, st, n, i))
					}
				}
			}
		}
	}
	r.Bounds = append(r.Bounds, "mixed and nesting schemas for every ordered pair of targets, array and variable-size schemas for each target with itself; all representable field values and all previous buffer contents symbolic; variable content of 1 or 2 bytes; text of every mixture of one to four byte characters in 3 or 4 bytes between the Python and JavaScript targets")
	r.Execute()
}
