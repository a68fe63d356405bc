package checks

import (
	"fmt"
	"math"

	"vsym/codec"
	"vsym/wire"
)

// constPattern is a distinctive constant of w bits for a kind.
func constPattern(k wire.Kind, w, i int) (text string, raw uint64, ok bool) {
	pats := []uint64{0xA5C3F0965A3C0F69, 0x5A3C0F69A5C3F096, 0xFFFFFFFFFFFFFFFF, 0x8000000000000001, 0x0123456789ABCDEF, 0, 0xFEDCBA9876543210, 0x7FFFFFFFFFFFFFFE}
	m := uint64(math.MaxUint64)
	if w < 64 {
		m = uint64(1)<<uint(w) - 1
	}
	x := pats[i%len(pats)]
	if w < 64 {
		x >>= uint(64 - w)
	}
	x &= m
	switch {
	case k == wire.KBool:
		if i%2 == 0 {
			return "true", 1, true
		}
		return "false", 0, true
	case k == wire.KF32:
		f := []float32{1.25, -3.5, 0.1, 3.3, -1e-6, 123456.789, 0, 16777216}[i%8]
		txt := []string{"1.25", "-3.5", "0.1", "3.3", "-1e-6", "123456.789", "0.0", "16777216.0"}[i%8]
		return txt, uint64(math.Float32bits(f)), true
	case k == wire.KF64:
		f := []float64{1.25, -3.5, 0.1, 3.141592653589793, -1e-9, 123456.789, 0, 1e15}[i%8]
		txt := []string{"1.25", "-3.5", "0.1", "3.141592653589793", "-1e-9", "123456.789", "0.0", "1e15"}[i%8]
		return txt, math.Float64bits(f), true
	case k.Signed():
		v := int64(x<<uint(64-w)) >> uint(64-w)
		if v == math.MinInt64 {
			v++
		}
		return fmt.Sprintf("%d", v), uint64(v), true
	}
	if x > math.MaxInt64 { // literals are 64-bit signed
		x &= math.MaxInt64
	}
	if i%2 == 0 {
		return fmt.Sprintf("0x%X", x), x, true
	}
	if i%3 == 0 && x != 0 {
		return fmt.Sprintf("0%o", x), x, true
	}
	return fmt.Sprintf("%d", x), x, true
}

func constField(k wire.Kind, w, i int, big bool) *wire.Field {
	t, raw, _ := constPattern(k, w, i)
	f := &wire.Field{Kind: k, Bits: w, Big: big, Const: t, CVal: raw}
	if i%3 != 2 {
		f.Name = fmt.Sprintf("k%d", i)
	}
	if k != wire.KBool {
		if n := f.StoreBits(); n < 64 {
			f.CVal &= uint64(1)<<uint(n) - 1
		}
	}
	return f
}

// constUnits is the constant family: every kind at several widths and starts.
func (r *Run) constUnits() []*wire.Unit {
	us := &unitSet{max: 20, name: "kc"}
	for _, big := range []bool{false, true} {
		o := "L"
		if big {
			o = "M"
		}
		for _, k := range append([]wire.Kind{wire.KBool, wire.KF32, wire.KF64}, intKinds...) {
			var ws []int
			switch {
			case k.Float():
				ws = []int{k.Width()}
			case k == wire.KBool:
				ws = []int{1, 3, 8}
			case r.Quick():
				switch k.Width() {
				case 8:
					ws = []int{8, 7, 5, 2}
				case 16:
					ws = []int{16, 13, 9, 8}
				case 32:
					ws = []int{32, 31, 25, 17, 8}
				default:
					ws = []int{64, 63, 57, 53, 33, 32, 16}
				}
			default:
				ws = r.widths(k)
			}
			for _, w := range ws {
				// two structs: starts 0..3 and 4..7, so that each decode has few constants
				for h := 0; h < 2; h++ {
					us.add(spread(fmt.Sprintf("K%s%sX%dH%d", o, kindTag[k], w, h), func(i int) *wire.Field {
						return constField(k, w, i+4*h, big)
					}, w, allStarts[4*h:4*h+4]))
				}
			}
		}
	}
	// constants in nested, embedded and repeated structs, behind dynamic fields
	u := us.unit()
	in := &wire.Struct{Name: "KIn", Fields: []*wire.Field{
		{Name: "tag", Kind: wire.KU8, Bits: 8, Const: "0xAA", CVal: 0xAA}, {Name: "v", Kind: wire.KU16, Bits: 12}, {Name: "e", Kind: wire.KU8, Bits: 4, Const: "9", CVal: 9}}}
	emb := &wire.Struct{Name: "KEm", Fields: []*wire.Field{
		{Name: "em", Kind: wire.KI16, Bits: 16, Const: "-2", CVal: 0xFFFE}, {Name: "ev", Kind: wire.KU8, Bits: 8}}}
	out := &wire.Struct{Name: "KOut", Fields: []*wire.Field{
		{Name: "a", Kind: wire.KU8, Bits: 8}, {Name: "n", Kind: wire.KStruct, Struct: in}, {Kind: wire.KEmbed, Struct: emb}, {Name: "m", Kind: wire.KStruct, Struct: in, N: 2},
		{Name: "", Kind: wire.KU32, Bits: 32, Const: "0xDEADBEEF", CVal: 0xDEADBEEF}}}
	deep := &wire.Struct{Name: "KDeep", Fields: []*wire.Field{
		{Name: "o", Kind: wire.KStruct, Struct: out}, {Name: "z", Kind: wire.KU8, Bits: 8, Const: "7", CVal: 7}}}
	dyn := &wire.Struct{Name: "KDyn", Fields: []*wire.Field{
		{Name: "s", Kind: wire.KString}, {Name: "mid", Kind: wire.KU16, Bits: 16, Const: "0x1234", CVal: 0x1234}, {Name: "d", Kind: wire.KBytes},
		{Name: "tail", Kind: wire.KU8, Bits: 8, Const: "0x5A", CVal: 0x5A}, {Name: "n", Kind: wire.KStruct, Struct: in}}}
	u.Structs = append(u.Structs, in, emb, out, deep, dyn)
	return us.units
}

// constDecodeItem asserts that decode accepts exactly the frames whose
// constants hold.
func constDecodeItem(j *codec.Job, st *wire.Struct, n int) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s#dec%d", j.Target, j.Unit.Pkg, st.Name, n), Target: j.Target, Traces: 2, MaxPaths: 4000, Run: func(x *X) {
		buf := symBuf(x.Path, "b", n)
		out := wire.Decode(x.Path, st, buf)
		plain(x, j, st, out.V)
		if !out.OK && !out.BadConst {
			x.Abort("frame is incomplete")
		}
		r := x.Rec(j)
		res, got := r.Decode(st, nil, buf, 0)
		x.Check("decode raises nothing", x.Bool(res.Exc == ""))
		if out.BadConst {
			x.Check("decode of a wrong constant returns -1", x.Eq(ret64(x.Ctx, res), x.SBV(64, -1)))
			return
		}
		x.Check("decode of right constants succeeds", x.Eq(ret64(x.Ctx, res), x.BV(64, uint64(out.N))))
		x.Check("fields around constants carry the documented values", codec.EqStruct(x.Ctx, st, out.V, got))
	}}
}

func runC03(r *Run) {
	jobs := r.Prepare(r.jobsFor(r.constUnits(), r.Targets, nil))
	for _, j := range jobs {
		for _, st := range j.Unit.Structs {
			if st.Dynamic() {
				for _, n := range []int{0, 2} {
					r.Add(encodeItem(j, st, fixedShape(n), fmt.Sprintf("#enc%d", n)))
				}
				for n := minSize(st); n <= minSize(st)+2; n++ {
					r.Add(constDecodeItem(j, st, n))
				}
				continue
			}
			r.Add(encodeItem(j, st, fixedShape(0), "#enc"))
			r.Add(constDecodeItem(j, st, st.FixedBits()/8))
		}
	}
	r.Bounds = append(r.Bounds, "constants of every basic kind, listed widths, both byte orders, at each start bit, plus nested/embedded/repeated/dynamic placements; every buffer byte symbolic; dynamic frames up to 2 bytes of variable content")
	r.Execute()
}
