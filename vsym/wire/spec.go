package wire

import (
	"fmt"
	"unicode/utf8"

	"vsym/sym"
)

// Val is a (symbolic) value of a field or struct.
type Val struct {
	T     *sym.Term   // scalar: StoreBits wide, Bool for bool
	B     []*sym.Term // string (UTF-8) or bytes content
	Elems []*Val      // arrays
	F     map[string]*Val
}

// ValueBit maps wire bit f of a W-bit field to the value bit it carries.
func ValueBit(w, f int, big bool) int {
	if !big {
		return f
	}
	byteNo := f / 8
	sh := w - 8*(byteNo+1)
	if sh < 0 {
		sh = 0
	}
	return sh + f%8
}

// Frame is an expected encoding.
type Frame struct {
	Bytes []*sym.Term
	Pad   []uint8 // per byte: mask of padding (void) bits whose content is unspecified
}

type bitSink struct {
	c    *sym.Ctx
	bits []*sym.Term // pending bits of the current byte (1 wide)
	pad  uint8
	out  Frame
}

func (b *bitSink) put(bit *sym.Term, pad bool) {
	if pad {
		b.pad |= 1 << uint(len(b.bits))
	}
	b.bits = append(b.bits, bit)
	if len(b.bits) == 8 {
		t := b.bits[0]
		for _, x := range b.bits[1:] {
			t = b.c.Concat(x, t)
		}
		b.out.Bytes = append(b.out.Bytes, t)
		b.out.Pad = append(b.out.Pad, b.pad)
		b.bits, b.pad = nil, 0
	}
}

func (b *bitSink) byte(t *sym.Term) {
	if len(b.bits) != 0 {
		panic("unaligned byte")
	}
	b.out.Bytes = append(b.out.Bytes, t)
	b.out.Pad = append(b.out.Pad, 0)
}

// AsBV views a scalar value as a bit-vector.
func AsBV(c *sym.Ctx, t *sym.Term) *sym.Term {
	if t.W == 0 {
		return c.BoolToBV(t, 8)
	}
	return t
}

func (b *bitSink) scalar(f *Field, v *sym.Term) {
	w := f.ElemBits()
	t := AsBV(b.c, v)
	for i := 0; i < w; i++ {
		k := ValueBit(w, i, f.Big)
		if k >= t.W {
			b.put(b.c.BV(1, 0), false) // wider than the value: never for accepted schemas
			continue
		}
		b.put(b.c.Extract(t, k, k), false)
	}
}

// Varint is the LEB128 encoding of a concrete length.
func Varint(n int) []byte {
	var out []byte
	for {
		x := byte(n & 0x7F)
		n >>= 7
		if n > 0 {
			out = append(out, x|0x80)
		} else {
			return append(out, x)
		}
	}
}

// Encode is the documented wire image of a value.
func Encode(c *sym.Ctx, s *Struct, v *Val) Frame {
	b := &bitSink{c: c}
	b.structure(s, v)
	if len(b.bits) != 0 {
		panic("struct not byte sized: " + s.Name)
	}
	return b.out
}

func (b *bitSink) structure(s *Struct, v *Val) {
	for _, f := range s.Flat() {
		b.field(f, v.F[f.Name])
	}
}

func (b *bitSink) field(f *Field, v *Val) {
	c := b.c
	switch {
	case f.Kind == KVoid:
		for i := 0; i < f.Bits; i++ {
			b.put(c.BV(1, 0), true)
		}
		return
	case f.Const != "":
		if f.Kind == KString {
			for _, x := range []byte(f.CStr) {
				b.byte(c.BV(8, uint64(x)))
			}
			b.byte(c.BV(8, 0))
			return
		}
		b.scalar(f, ConstTerm(c, f))
		return
	}
	for i := 0; i < f.Count(); i++ {
		e := v
		if f.N > 0 {
			e = v.Elems[i]
		}
		switch f.Kind {
		case KString:
			for _, x := range e.B {
				b.byte(x)
			}
			b.byte(c.BV(8, 0))
		case KBytes:
			for _, x := range Varint(len(e.B)) {
				b.byte(c.BV(8, uint64(x)))
			}
			for _, x := range e.B {
				b.byte(x)
			}
		case KStruct:
			b.structure(f.Struct, e)
		default:
			b.scalar(f, e.T)
		}
	}
}

func ConstTerm(c *sym.Ctx, f *Field) *sym.Term {
	if f.Kind == KBool {
		return c.Bool(f.CVal != 0)
	}
	return c.BV(f.StoreBits(), f.CVal)
}

// Outcome of decoding by the specification.
type Outcome struct {
	OK       bool
	Need     int  // when the buffer is too short: smallest total size known to be needed
	Short    bool // not enough bytes
	BadConst bool
	BadLen   bool // length prefix overflows what any implementation can represent
	N        int
	V        *Val
}

type reader struct {
	p   *sym.Path
	d   []*sym.Term
	bit int
	out *Outcome
}

type stopRead struct{}

// Decode is the documented decoding of a symbolic buffer; it forks the path on
// terminators, length prefixes and constants.
func Decode(p *sym.Path, s *Struct, d []*sym.Term) (o *Outcome) {
	n, short, bad := Size(p, s, d)
	return decodeSized(p, s, d, n, short, bad)
}

// Limits are what a target's integers can hold.
type Limits struct {
	Len    uint64 // largest content length that can be reported as missing
	Prefix int    // bytes of a length prefix
}

var (
	Limits64 = Limits{1<<63 - 1 - 1<<16, 9}
	Limits32 = Limits{1<<31 - 1 - 1<<16, 5}
)

// DecodeLim is Decode with the limits of a target: lengths that the target
// cannot represent are bad.
func DecodeLim(p *sym.Path, s *Struct, d []*sym.Term, lim Limits) (o *Outcome) {
	z := &sizer{p: p, lim: lim}
	pos, short, bad := z.at(s, d, 0, 0)
	n := (pos + 7) / 8
	if !bad && n > len(d) {
		short = true
	}
	return decodeSized(p, s, d, n, short, bad)
}

type sizer struct {
	p     *sym.Path
	lim   Limits
	prune bool
}

// DecodeComplete is Decode for callers interested in complete frames only: an
// incomplete frame is recognised as soon as the rest cannot fit any more, and
// Need is then not meaningful.
func DecodeComplete(p *sym.Path, s *Struct, d []*sym.Term) (o *Outcome) {
	z := &sizer{p: p, lim: Limits64, prune: true}
	pos, short, bad := z.at(s, d, 0, 0)
	if pos > len(d)*8 {
		short = true
	}
	return decodeSized(p, s, d, pos/8, short, bad)
}

func decodeSized(p *sym.Path, s *Struct, d []*sym.Term, n int, short, bad bool) (o *Outcome) {
	o = &Outcome{}
	// the size check comes first: decode fails on short input whatever the constants say
	if bad {
		o.BadLen = true
		return o
	}
	if short {
		o.Short = true
		o.Need = n
		return o
	}
	r := &reader{p: p, d: d, out: o}
	okc := p.True()
	o.V = r.structure(s, &okc)
	o.N = r.bit / 8
	if o.N != n {
		panic("spec: size disagreement")
	}
	if !p.Branch(okc) {
		o.BadConst = true
		return o
	}
	o.OK = true
	return o
}

// Size is the documented size of the frame at the start of d. short means that
// n bytes at least are needed; bad that a length prefix is not representable.
func Size(p *sym.Path, s *Struct, d []*sym.Term) (n int, short, bad bool) {
	z := &sizer{p: p, lim: Limits64}
	pos, sh, bd := z.at(s, d, 0, 0)
	if bd {
		return 0, false, true
	}
	if sh || pos > len(d)*8 {
		need := (pos + 7) / 8
		if need <= len(d) {
			need = len(d) + 1
		}
		return need, true, false
	}
	return pos / 8, false, false
}

// MinBits is the size of the smallest frame.
func (s *Struct) MinBits() int {
	n := 0
	for _, f := range s.Flat() {
		n += f.Count() * f.minBits()
	}
	return n
}

func (f *Field) minBits() int {
	switch f.Kind {
	case KString:
		if f.Const != "" {
			return 8 * (len(f.CStr) + 1)
		}
		return 8
	case KBytes:
		return 8
	case KStruct:
		return f.Struct.MinBits()
	}
	return f.ElemBits()
}

// at walks a struct from a bit position. With prune it stops at the first
// point where the smallest possible rest (and the tail bits behind the struct)
// exceeds the buffer.
func (z *sizer) at(s *Struct, d []*sym.Term, bit int, tail int) (int, bool, bool) {
	p, prune := z.p, z.prune
	rest := tail
	if prune {
		rest += s.MinBits()
	}
	for _, f := range s.Flat() {
		for i := 0; i < f.Count(); i++ {
			lim := len(d) // the variable content of this element ends here at the latest
			if prune {
				rest -= f.minBits()
				lim = (len(d)*8 - rest) / 8
			}
			switch {
			case f.Kind == KVoid || f.Kind.Scalar():
				bit += f.ElemBits()
			case f.Kind == KString:
				pos := bit / 8
				if f.Const != "" {
					// a constant string has a fixed image
					bit += 8 * (len(f.CStr) + 1)
					continue
				}
				for {
					if pos >= lim {
						return (pos + 1) * 8, true, false
					}
					if p.Branch(p.Eq(d[pos], p.BV(8, 0))) {
						break
					}
					pos++
				}
				bit = (pos + 1) * 8
			case f.Kind == KBytes:
				pos := bit / 8
				length := p.BV(64, 0)
				for k := 0; ; k++ {
					if pos >= lim {
						return (pos + 1) * 8, true, false
					}
					length = p.Or(length, p.Shl(p.Zext(p.Extract(d[pos], 6, 0), 64), p.BV(64, uint64(7*k))))
					more := p.Branch(p.Eq(p.Extract(d[pos], 7, 7), p.BV(1, 1)))
					pos++
					if !more {
						break
					}
					if k == z.lim.Prefix-1 {
						return 0, false, true // longer than any length the target can hold
					}
				}
				if !length.IsConst() {
					avail := uint64(0)
					if pos < lim {
						avail = uint64(lim - pos)
					}
					if !p.Branch(p.Ule(length, p.BV(64, avail))) {
						if !p.Branch(p.Ule(length, p.BV(64, z.lim.Len))) {
							return 0, false, true
						}
						return (len(d) + 1) * 8, true, false
					}
					length = p.Concretize(length)
				}
				if length.V > uint64(len(d)) {
					return (len(d) + 1) * 8, true, false
				}
				bit = (pos + int(length.V)) * 8
			case f.Kind == KStruct:
				b, sh, bd := z.at(f.Struct, d, bit, rest)
				if sh || bd {
					return b, sh, bd
				}
				bit = b
			}
		}
	}
	return bit, false, false
}

func (r *reader) structure(s *Struct, ok **sym.Term) *Val {
	v := &Val{F: map[string]*Val{}}
	for _, f := range s.Flat() {
		x := r.field(f, ok)
		if x != nil {
			v.F[f.Name] = x
		}
	}
	return v
}

func (r *reader) scalarRaw(f *Field) *sym.Term {
	p := r.p
	w := f.ElemBits()
	bits := make([]*sym.Term, w)
	for i := 0; i < w; i++ {
		pos := r.bit + i
		bits[ValueBit(w, i, f.Big)] = p.Extract(r.d[pos/8], pos%8, pos%8)
	}
	r.bit += w
	t := bits[0]
	for _, b := range bits[1:] {
		t = p.Concat(b, t)
	}
	return t
}

func (r *reader) scalar(f *Field) *sym.Term {
	p := r.p
	t := r.scalarRaw(f)
	sb := f.StoreBits()
	switch {
	case f.Kind == KBool:
		return p.NonZero(t)
	case f.Kind.Signed():
		return p.Sext(t, sb)
	}
	return p.Zext(t, sb)
}

func (r *reader) field(f *Field, ok **sym.Term) *Val {
	p := r.p
	switch {
	case f.Kind == KVoid:
		r.bit += f.Bits
		return nil
	case f.Const != "":
		if f.Kind == KString {
			c := p.True()
			for _, x := range append([]byte(f.CStr), 0) {
				c = p.And(c, p.Eq(r.d[r.bit/8], p.BV(8, uint64(x))))
				r.bit += 8
			}
			*ok = p.And(*ok, c)
			return nil
		}
		raw := r.scalarRaw(f)
		if f.Kind == KBool { // any nonzero value is true
			*ok = p.And(*ok, p.Eq(p.NonZero(raw), ConstTerm(p.Ctx, f)))
			return nil
		}
		want := AsBV(p.Ctx, ConstTerm(p.Ctx, f))
		if f.Kind.Float() && raw.W == f.Kind.Width() { // both zeros are the same value
			*ok = p.And(*ok, p.UF(fmt.Sprintf("f%d.eq", raw.W), 0, raw, want))
			return nil
		}
		*ok = p.And(*ok, p.Eq(raw, p.Extract(want, raw.W-1, 0)))
		return nil
	}
	one := func() *Val {
		switch f.Kind {
		case KString:
			v := &Val{}
			for {
				b := r.d[r.bit/8]
				r.bit += 8
				if p.Branch(p.Eq(b, p.BV(8, 0))) {
					return v
				}
				v.B = append(v.B, b)
			}
		case KBytes:
			length := p.BV(64, 0)
			for k := 0; ; k++ {
				b := r.d[r.bit/8]
				r.bit += 8
				length = p.Or(length, p.Shl(p.Zext(p.Extract(b, 6, 0), 64), p.BV(64, uint64(7*k))))
				if !p.Branch(p.Eq(p.Extract(b, 7, 7), p.BV(1, 1))) {
					break
				}
			}
			n := int(p.Concretize(length).V)
			v := &Val{B: append([]*sym.Term{}, r.d[r.bit/8:r.bit/8+n]...)}
			r.bit += 8 * n
			return v
		case KStruct:
			return r.structure(f.Struct, ok)
		}
		return &Val{T: r.scalar(f)}
	}
	if f.N == 0 {
		return one()
	}
	v := &Val{}
	for i := 0; i < f.N; i++ {
		v.Elems = append(v.Elems, one())
	}
	return v
}

// Shape fixes the lengths of variable-size content.
type Shape func(path string) int

// SymVal builds an all-symbolic value. Strings get non-NUL bytes; with ascii
// they are limited to 1..127.
func SymVal(p *sym.Path, s *Struct, prefix string, shape Shape, ascii bool) *Val {
	v := &Val{F: map[string]*Val{}}
	for _, f := range s.Flat() {
		if f.Kind == KVoid || f.Const != "" {
			continue
		}
		path := prefix + "." + f.Name
		one := func(path string) *Val {
			switch f.Kind {
			case KString:
				n := shape(path)
				x := &Val{B: []*sym.Term{}}
				for i := 0; i < n; i++ {
					b := p.Var(fmt.Sprintf("%s[%d]", path, i), 8)
					p.AssumeQuiet(p.Ne(b, p.BV(8, 0)))
					if ascii {
						p.AssumeQuiet(p.Ult(b, p.BV(8, utf8.RuneSelf)))
					}
					x.B = append(x.B, b)
				}
				return x
			case KBytes:
				n := shape(path)
				x := &Val{B: []*sym.Term{}}
				for i := 0; i < n; i++ {
					x.B = append(x.B, p.Var(fmt.Sprintf("%s[%d]", path, i), 8))
				}
				return x
			case KStruct:
				return SymVal(p, f.Struct, path, shape, ascii)
			}
			return &Val{T: p.Var(path, f.StoreBits())}
		}
		if f.N == 0 {
			v.F[f.Name] = one(path)
			continue
		}
		x := &Val{}
		for i := 0; i < f.N; i++ {
			x.Elems = append(x.Elems, one(fmt.Sprintf("%s.%d", path, i)))
		}
		v.F[f.Name] = x
	}
	return v
}

// EvalVal evaluates a value under a model.
func EvalVal(c *sym.Ctx, m sym.Model, v *Val) *Val {
	if v == nil {
		return nil
	}
	r := &Val{}
	if v.T != nil {
		r.T = c.Eval(v.T, m)
	}
	if v.B != nil {
		r.B = []*sym.Term{}
		for _, b := range v.B {
			r.B = append(r.B, c.Eval(b, m))
		}
	}
	for _, e := range v.Elems {
		r.Elems = append(r.Elems, EvalVal(c, m, e))
	}
	if v.F != nil {
		r.F = map[string]*Val{}
		for k, e := range v.F {
			r.F[k] = EvalVal(c, m, e)
		}
	}
	return r
}

// Terms lists every term of a value.
func Terms(v *Val) []*sym.Term {
	if v == nil {
		return nil
	}
	var out []*sym.Term
	if v.T != nil {
		out = append(out, v.T)
	}
	out = append(out, v.B...)
	for _, e := range v.Elems {
		out = append(out, Terms(e)...)
	}
	for _, e := range v.F {
		out = append(out, Terms(e)...)
	}
	return out
}
