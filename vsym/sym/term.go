// Package sym holds the bit-vector terms, the solver connection and the path
// explorer shared by every front end.
package sym

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // boolean or bit-vector complement
	OAnd
	OOr
	OXor
	ONeg
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OUF
)

var opNames = map[Op]string{OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// Term is a hash-consed expression. W == 0 is Bool, otherwise a bit-vector.
type Term struct {
	Op   Op
	W    int
	A    []*Term
	V    uint64   // OConst, W <= 64 (Bool: 0/1); OExtract: low bit
	Big  *big.Int // OConst, W > 64
	Name string   // OVar, OUF
	ID   int
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 0 && t.V == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 0 && t.V == 0 }

// U64 is the unsigned value of a constant of at most 64 bits.
func (t *Term) U64() uint64 {
	if t.Op != OConst {
		panic("U64 of symbolic term " + t.String())
	}
	if t.Big != nil {
		if !t.Big.IsUint64() {
			panic("U64 overflow")
		}
		return t.Big.Uint64()
	}
	return t.V
}

// S64 is the signed value of a constant of at most 64 bits.
func (t *Term) S64() int64 {
	if t.Op != OConst {
		panic("S64 of symbolic term " + t.String())
	}
	if t.Big != nil {
		s := t.SBig()
		if !s.IsInt64() {
			panic("S64 overflow")
		}
		return s.Int64()
	}
	return SignExt64(t.V, t.W)
}

func SignExt64(v uint64, w int) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-uint(w))) >> (64 - uint(w))
}

func (t *Term) UBig() *big.Int {
	if t.Big != nil {
		return new(big.Int).Set(t.Big)
	}
	return new(big.Int).SetUint64(t.V)
}

func (t *Term) SBig() *big.Int {
	u := t.UBig()
	if t.W > 0 && u.Bit(t.W-1) == 1 {
		u.Sub(u, new(big.Int).Lsh(big.NewInt(1), uint(t.W)))
	}
	return u
}

type key struct {
	op      Op
	w       int
	a, b, c int
	v       uint64
	s       string
}

// Ctx owns a term table. It is not safe for concurrent use.
type Ctx struct {
	tab    map[key]*Term
	nterms int
	tru    *Term
	fls    *Term
	small  [65][]*Term
	fresh  int
	Vars   []*Term
	UFs    map[string]*UFDecl
	UFList []*UFDecl
}

type UFDecl struct {
	Name string
	Args []int
	Ret  int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}, UFs: map[string]*UFDecl{}}
	c.tru = c.mk(&Term{Op: OConst, W: 0, V: 1}, key{op: OConst, w: 0, v: 1})
	c.fls = c.mk(&Term{Op: OConst, W: 0, V: 0}, key{op: OConst, w: 0, v: 0})
	return c
}

func (c *Ctx) mk(t *Term, k key) *Term {
	if x, ok := c.tab[k]; ok {
		return x
	}
	c.nterms++
	t.ID = c.nterms
	c.tab[k] = t
	return t
}

func (c *Ctx) NumTerms() int { return c.nterms }

func maskU(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}
func (c *Ctx) True() *Term  { return c.tru }
func (c *Ctx) False() *Term { return c.fls }

// BV makes a constant of width w from the low bits of v (zero-extended beyond 64).
func (c *Ctx) BV(w int, v uint64) *Term {
	if w <= 0 {
		panic("BV width")
	}
	if w > 64 {
		return c.BigBV(w, new(big.Int).SetUint64(v))
	}
	v &= maskU(w)
	if v < 256 {
		if c.small[w] == nil {
			c.small[w] = make([]*Term, 256)
		}
		if t := c.small[w][v]; t != nil {
			return t
		}
		t := c.mk(&Term{Op: OConst, W: w, V: v}, key{op: OConst, w: w, v: v})
		c.small[w][v] = t
		return t
	}
	k := key{op: OConst, w: w, v: v}
	if x, ok := c.tab[k]; ok {
		return x
	}
	return c.mk(&Term{Op: OConst, W: w, V: v}, k)
}

func (c *Ctx) SBV(w int, v int64) *Term {
	if w > 64 {
		return c.BigBV(w, big.NewInt(v))
	}
	return c.BV(w, uint64(v))
}

func (c *Ctx) BigBV(w int, v *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	x := new(big.Int).Mod(v, m)
	if w <= 64 {
		return c.BV(w, x.Uint64())
	}
	k := key{op: OConst, w: w, s: x.Text(16)}
	return c.mk(&Term{Op: OConst, W: w, Big: x}, k)
}

func (c *Ctx) Var(name string, w int) *Term {
	k := key{op: OVar, w: w, s: name}
	if x, ok := c.tab[k]; ok {
		return x
	}
	t := c.mk(&Term{Op: OVar, W: w, Name: name}, k)
	c.Vars = append(c.Vars, t)
	return t
}

func (c *Ctx) Fresh(prefix string, w int) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), w)
}

func (c *Ctx) un(op Op, w int, a *Term, v uint64) *Term {
	k := key{op: op, w: w, a: a.ID, v: v}
	if x, ok := c.tab[k]; ok {
		return x
	}
	return c.mk(&Term{Op: op, W: w, A: []*Term{a}, V: v}, k)
}

func (c *Ctx) bin(op Op, w int, a, b *Term) *Term {
	k := key{op: op, w: w, a: a.ID, b: b.ID}
	if x, ok := c.tab[k]; ok {
		return x
	}
	return c.mk(&Term{Op: op, W: w, A: []*Term{a, b}}, k)
}

func same(a, b *Term) {
	if a.W != b.W {
		panic(fmt.Sprintf("width mismatch %d vs %d: %s / %s", a.W, b.W, a, b))
	}
}

func (c *Ctx) foldBig(op Op, w int, a, b *Term) *Term {
	x, y := a.UBig(), b.UBig()
	r := new(big.Int)
	switch op {
	case OAnd:
		r.And(x, y)
	case OOr:
		r.Or(x, y)
	case OXor:
		r.Xor(x, y)
	case OAdd:
		r.Add(x, y)
	case OSub:
		r.Sub(x, y)
	case OMul:
		r.Mul(x, y)
	case OUDiv:
		if y.Sign() == 0 {
			r.Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
		} else {
			r.Quo(x, y)
		}
	case OURem:
		if y.Sign() == 0 {
			r.Set(x)
		} else {
			r.Rem(x, y)
		}
	case OSDiv, OSRem:
		sx, sy := a.SBig(), b.SBig()
		if sy.Sign() == 0 {
			if op == OSRem {
				r.Set(sx)
			} else if sx.Sign() < 0 {
				r.SetInt64(1)
			} else {
				r.SetInt64(-1)
			}
		} else if op == OSDiv {
			r.Quo(sx, sy)
		} else {
			r.Rem(sx, sy)
		}
	case OShl:
		if y.IsUint64() && y.Uint64() < uint64(w) {
			r.Lsh(x, uint(y.Uint64()))
		}
	case OLshr:
		if y.IsUint64() && y.Uint64() < uint64(w) {
			r.Rsh(x, uint(y.Uint64()))
		}
	case OAshr:
		s := a.SBig()
		n := uint(w)
		if y.IsUint64() && y.Uint64() < uint64(w) {
			n = uint(y.Uint64())
		}
		r.Rsh(s, n)
	default:
		panic("foldBig")
	}
	return c.BigBV(w, r)
}

func fold64(op Op, w int, x, y uint64) uint64 {
	sx, sy := SignExt64(x, w), SignExt64(y, w)
	switch op {
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OAdd:
		return x + y
	case OSub:
		return x - y
	case OMul:
		return x * y
	case OUDiv:
		if y == 0 {
			return ^uint64(0)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return ^uint64(0)
		}
		if sy == -1 {
			return uint64(-sx)
		}
		return uint64(sx / sy)
	case OSRem:
		if sy == 0 {
			return uint64(sx)
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx % sy)
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sx >> y)
	}
	panic("fold64")
}

func (c *Ctx) isZero(t *Term) bool {
	return t.Op == OConst && t.Big == nil && t.V == 0 || t.Op == OConst && t.Big != nil && t.Big.Sign() == 0
}

func (c *Ctx) isOnes(t *Term) bool {
	if t.Op != OConst || t.W == 0 {
		return false
	}
	if t.Big != nil {
		return t.Big.BitLen() == t.W && bigOnes(t.Big)
	}
	return t.V == maskU(t.W)
}

func bigOnes(b *big.Int) bool {
	n := new(big.Int).Add(b, big.NewInt(1))
	return n.BitLen() == b.BitLen()+1 && n.TrailingZeroBits() == uint(b.BitLen())
}

// arith builds a same-width binary bit-vector operation.
func (c *Ctx) arith(op Op, a, b *Term) *Term {
	same(a, b)
	w := a.W
	if w == 0 {
		panic("arith on Bool")
	}
	if a.Op == OConst && b.Op == OConst {
		if w <= 64 {
			return c.BV(w, fold64(op, w, a.V, b.V))
		}
		return c.foldBig(op, w, a, b)
	}
	switch op {
	case OAnd, OOr, OXor, OAdd, OMul:
		if a.Op == OConst || (b.Op != OConst && a.ID > b.ID) {
			a, b = b, a // constants to the right, otherwise by age
		}
	}
	zb, ob := c.isZero(b), c.isOnes(b)
	switch op {
	case OAnd:
		if zb {
			return b
		}
		if ob || a == b {
			return a
		}
		if b.Op == OConst && w <= 64 {
			if a.Op == OAnd && a.A[1].Op == OConst {
				return c.arith(OAnd, a.A[0], c.BV(w, a.A[1].V&b.V))
			}
			if a.Op == OZext && b.V&maskU(a.A[0].W) == maskU(a.A[0].W) {
				return a
			}
			// contiguous low mask: extract + zext
			if b.V&(b.V+1) == 0 {
				n := bits.Len64(b.V)
				return c.Zext(c.Extract(a, n-1, 0), w)
			}
		}
	case OOr, OXor, OAdd:
		if zb {
			return a
		}
		if op == OOr && (ob || a == b) {
			return b
		}
		if op == OXor && a == b {
			return c.BV(w, 0)
		}
		if op == OXor && ob {
			return c.Not(a)
		}
		if op == OAdd && b.Op == OConst && a.Op == OAdd && a.A[1].Op == OConst {
			return c.arith(OAdd, a.A[0], c.arith(OAdd, a.A[1], b))
		}
		if op == OAdd && b.Op == OConst {
			// low zero bits of the constant leave the low bits alone
			if k := int(b.UBig().TrailingZeroBits()); k > 0 && k < w {
				return c.Concat(c.Add(c.Extract(a, w-1, k), c.Extract(b, w-1, k)), c.Extract(a, k-1, 0))
			}
			if ob && a.Op == OZext && a.A[0].W == 1 {
				return c.Sext(c.Not(a.A[0]), w) // b-1 of a single bit
			}
			if w == 1 {
				return c.Not(a)
			}
		}
	case OSub:
		if zb {
			return a
		}
		if a == b {
			return c.BV(w, 0)
		}
		if b.Op == OConst {
			return c.arith(OAdd, a, c.Neg(b))
		}
	case OMul:
		if zb {
			return b
		}
		if b.Op == OConst && w <= 64 && b.V == 1 {
			return a
		}
		if b.Op == OConst && w <= 64 && b.V&(b.V-1) == 0 {
			return c.arith(OShl, a, c.BV(w, uint64(bits.TrailingZeros64(b.V))))
		}
	case OUDiv:
		if b.Op == OConst && w <= 64 && b.V != 0 && b.V&(b.V-1) == 0 {
			return c.arith(OLshr, a, c.BV(w, uint64(bits.TrailingZeros64(b.V))))
		}
	case OURem:
		if b.Op == OConst && w <= 64 && b.V != 0 && b.V&(b.V-1) == 0 {
			return c.arith(OAnd, a, c.BV(w, b.V-1))
		}
	case OShl, OLshr, OAshr:
		if zb {
			return a
		}
		if c.isZero(a) {
			return a
		}
		if b.Op == OConst {
			var n int
			if b.Big != nil {
				n = w
				if b.Big.IsUint64() && b.Big.Uint64() < uint64(w) {
					n = int(b.Big.Uint64())
				}
			} else if b.V >= uint64(w) {
				n = w
			} else {
				n = int(b.V)
			}
			switch op {
			case OShl:
				if n >= w {
					return c.BV(w, 0)
				}
				return c.Concat(c.Extract(a, w-1-n, 0), c.BV(n, 0))
			case OLshr:
				if n >= w {
					return c.BV(w, 0)
				}
				return c.Zext(c.Extract(a, w-1, n), w)
			case OAshr:
				if n >= w {
					n = w - 1
				}
				return c.Sext(c.Extract(a, w-1, n), w)
			}
		}
	}
	switch op {
	case OAnd, OOr, OXor:
		if r := c.bitwise(op, a, b); r != nil {
			return r
		}
	case OAdd:
		if c.disjoint(a, b) {
			return c.arith(OOr, a, b)
		}
	}
	return c.bin(op, w, a, b)
}

func (c *Ctx) Add(a, b *Term) *Term  { return c.arith(OAdd, a, b) }
func (c *Ctx) Sub(a, b *Term) *Term  { return c.arith(OSub, a, b) }
func (c *Ctx) Mul(a, b *Term) *Term  { return c.arith(OMul, a, b) }
func (c *Ctx) UDiv(a, b *Term) *Term { return c.arith(OUDiv, a, b) }
func (c *Ctx) URem(a, b *Term) *Term { return c.arith(OURem, a, b) }
func (c *Ctx) SDiv(a, b *Term) *Term { return c.arith(OSDiv, a, b) }
func (c *Ctx) SRem(a, b *Term) *Term { return c.arith(OSRem, a, b) }
func (c *Ctx) Shl(a, b *Term) *Term  { return c.arith(OShl, a, b) }
func (c *Ctx) Lshr(a, b *Term) *Term { return c.arith(OLshr, a, b) }
func (c *Ctx) Ashr(a, b *Term) *Term { return c.arith(OAshr, a, b) }

// And/Or/Xor/Not work on Bool and bit-vectors.
func (c *Ctx) And(a, b *Term) *Term {
	same(a, b)
	if a.W > 0 {
		return c.arith(OAnd, a, b)
	}
	if a.IsFalse() || b.IsFalse() {
		return c.fls
	}
	if a.IsTrue() || a == b {
		return b
	}
	if b.IsTrue() {
		return a
	}
	if a.Op == ONot && a.A[0] == b || b.Op == ONot && b.A[0] == a {
		return c.fls
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.bin(OAnd, 0, a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	same(a, b)
	if a.W > 0 {
		return c.arith(OOr, a, b)
	}
	if a.IsTrue() || b.IsTrue() {
		return c.tru
	}
	if a.IsFalse() || a == b {
		return b
	}
	if b.IsFalse() {
		return a
	}
	if a.Op == ONot && a.A[0] == b || b.Op == ONot && b.A[0] == a {
		return c.tru
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.bin(OOr, 0, a, b)
}

func (c *Ctx) Xor(a, b *Term) *Term {
	same(a, b)
	if a.W > 0 {
		return c.arith(OXor, a, b)
	}
	return c.Not(c.Eq(a, b))
}

func (c *Ctx) Not(a *Term) *Term {
	if a.Op == OConst {
		if a.W == 0 {
			return c.Bool(a.V == 0)
		}
		if a.Big == nil {
			return c.BV(a.W, ^a.V)
		}
		return c.BigBV(a.W, new(big.Int).Not(a.Big))
	}
	if a.Op == ONot {
		return a.A[0]
	}
	return c.un(ONot, a.W, a, 0)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.Op == OConst {
		if a.Big == nil {
			return c.BV(a.W, -a.V)
		}
		return c.BigBV(a.W, new(big.Int).Neg(a.Big))
	}
	if a.Op == ONeg {
		return a.A[0]
	}
	return c.un(ONeg, a.W, a, 0)
}

func (c *Ctx) AndN(ts ...*Term) *Term {
	r := c.tru
	for _, t := range ts {
		r = c.And(r, t)
	}
	return r
}

func (c *Ctx) OrN(ts ...*Term) *Term {
	r := c.fls
	for _, t := range ts {
		r = c.Or(r, t)
	}
	return r
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

// Concat puts a above b.
func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.W + b.W
	if a.Op == OConst && b.Op == OConst {
		if w <= 64 {
			return c.BV(w, a.V<<uint(b.W)|b.V)
		}
		x := a.UBig()
		x.Lsh(x, uint(b.W))
		x.Or(x, b.UBig())
		return c.BigBV(w, x)
	}
	if c.isZero(a) {
		return c.Zext(b, w)
	}
	if a.Op == OExtract && b.Op == OExtract && a.A[0] == b.A[0] && int(a.V) == int(b.V)+b.W {
		return c.Extract(a.A[0], int(b.V)+w-1, int(b.V))
	}
	if a.Op == OConcat && a.A[1].Op == OConst && b.Op == OConst {
		return c.Concat(a.A[0], c.Concat(a.A[1], b))
	}
	return c.bin(OConcat, w, a, b)
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	if hi < lo || lo < 0 || hi >= a.W {
		panic(fmt.Sprintf("extract [%d:%d] of width %d", hi, lo, a.W))
	}
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	switch a.Op {
	case OConst:
		if a.Big == nil {
			return c.BV(w, a.V>>uint(lo))
		}
		return c.BigBV(w, new(big.Int).Rsh(a.Big, uint(lo)))
	case OExtract:
		return c.Extract(a.A[0], hi+int(a.V), lo+int(a.V))
	case OConcat:
		lw := a.A[1].W
		if hi < lw {
			return c.Extract(a.A[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.A[0], hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.A[0], hi-lw, 0), c.Extract(a.A[1], lw-1, lo))
	case OZext:
		lw := a.A[0].W
		if hi < lw {
			return c.Extract(a.A[0], hi, lo)
		}
		if lo >= lw {
			return c.BV(w, 0)
		}
		return c.Zext(c.Extract(a.A[0], lw-1, lo), w)
	case OSext:
		lw := a.A[0].W
		if hi < lw {
			return c.Extract(a.A[0], hi, lo)
		}
		if lo < lw {
			return c.Sext(c.Extract(a.A[0], lw-1, lo), w)
		}
		return c.Sext(c.Extract(a.A[0], lw-1, lw-1), w)
	case OAnd, OOr, OXor:
		return c.arith(a.Op, c.Extract(a.A[0], hi, lo), c.Extract(a.A[1], hi, lo))
	case ONot:
		return c.Not(c.Extract(a.A[0], hi, lo))
	case OIte:
		if a.A[1].Op == OConst && a.A[2].Op == OConst {
			return c.Ite(a.A[0], c.Extract(a.A[1], hi, lo), c.Extract(a.A[2], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.arith(a.Op, c.Extract(a.A[0], hi, 0), c.Extract(a.A[1], hi, 0))
		}
	case ONeg:
		if lo == 0 {
			return c.Neg(c.Extract(a.A[0], hi, 0))
		}
	}
	return c.un(OExtract, w, a, uint64(lo))
}

func (c *Ctx) Zext(a *Term, w int) *Term {
	if w < a.W {
		panic("zext narrows")
	}
	if w == a.W {
		return a
	}
	if a.Op == OConst {
		if w <= 64 {
			return c.BV(w, a.V)
		}
		return c.BigBV(w, a.UBig())
	}
	if a.Op == OZext {
		return c.Zext(a.A[0], w)
	}
	return c.un(OZext, w, a, 0)
}

func (c *Ctx) Sext(a *Term, w int) *Term {
	if w < a.W {
		panic("sext narrows")
	}
	if w == a.W {
		return a
	}
	if a.Op == OConst {
		if w <= 64 {
			return c.BV(w, uint64(SignExt64(a.V, a.W)))
		}
		return c.BigBV(w, a.SBig())
	}
	if a.Op == OSext {
		return c.Sext(a.A[0], w)
	}
	if a.Op == OZext && a.A[0].W < a.W {
		return c.Zext(a.A[0], w)
	}
	return c.un(OSext, w, a, 0)
}

// Resize truncates or extends.
func (c *Ctx) Resize(a *Term, w int, signed bool) *Term {
	if w < a.W {
		return c.Extract(a, w-1, 0)
	}
	if signed {
		return c.Sext(a, w)
	}
	return c.Zext(a, w)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	same(a, b)
	if cond.IsTrue() || a == b {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a.W == 0 {
		if a.IsTrue() && b.IsFalse() {
			return cond
		}
		if a.IsFalse() && b.IsTrue() {
			return c.Not(cond)
		}
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
	}
	if cond.Op == ONot {
		return c.Ite(cond.A[0], b, a)
	}
	if a.W == 1 && a.Op == OConst && b.Op == OConst && a.V == 0 {
		return c.Not(c.Ite(cond, b, a))
	}
	if a.W == 1 && a.Op == OConst && b.Op == OConst && cond.Op == OEq && cond.A[0].W == 1 && cond.A[1].Op == OConst {
		return cond.A[0] // Eq(x, 1) of one bit
	}
	if a.W > 1 {
		if r := c.iteSegs(cond, a, b); r != nil {
			return r
		}
	}
	k := key{op: OIte, w: a.W, a: cond.ID, b: a.ID, c: b.ID}
	if x, ok := c.tab[k]; ok {
		return x
	}
	return c.mk(&Term{Op: OIte, W: a.W, A: []*Term{cond, a, b}}, k)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	same(a, b)
	if a == b {
		return c.tru
	}
	if a.Op == OConst && b.Op == OConst {
		return c.fls
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a.W == 0 {
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if b.Op == OConst && b.W == 1 && b.V == 0 {
		return c.Not(c.Eq(a, c.BV(1, 1)))
	}
	if b.Op == OConst {
		switch a.Op {
		case ONot:
			if a.W == 1 {
				return c.Not(c.Eq(a.A[0], b))
			}
		case OZext:
			n := a.A[0].W
			hi := c.Extract(b, b.W-1, n)
			if !c.isZero(hi) {
				return c.fls
			}
			return c.Eq(a.A[0], c.Extract(b, n-1, 0))
		case OSext:
			n := a.A[0].W
			low := c.Extract(b, n-1, 0)
			if c.Sext(low, b.W) != b {
				return c.fls
			}
			return c.Eq(a.A[0], low)
		case OIte:
			x, y := a.A[1], a.A[2]
			if x.Op == OConst && y.Op == OConst {
				return c.Ite(a.A[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OConcat:
			if a.A[0].Op == OConst || a.A[1].Op == OConst {
				lw := a.A[1].W
				return c.And(c.Eq(a.A[0], c.Extract(b, b.W-1, lw)), c.Eq(a.A[1], c.Extract(b, lw-1, 0)))
			}
		}
	} else if a.ID > b.ID {
		a, b = b, a
	}
	return c.bin(OEq, 0, a, b)
}

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func cmpConst(op Op, a, b *Term) bool {
	if a.Big == nil && b.Big == nil {
		switch op {
		case OUlt:
			return a.V < b.V
		case OUle:
			return a.V <= b.V
		case OSlt:
			return SignExt64(a.V, a.W) < SignExt64(b.V, b.W)
		default:
			return SignExt64(a.V, a.W) <= SignExt64(b.V, b.W)
		}
	}
	switch op {
	case OUlt:
		return a.UBig().Cmp(b.UBig()) < 0
	case OUle:
		return a.UBig().Cmp(b.UBig()) <= 0
	case OSlt:
		return a.SBig().Cmp(b.SBig()) < 0
	default:
		return a.SBig().Cmp(b.SBig()) <= 0
	}
}

// cmpBounds decides a comparison from the constant segments of its operands.
func (c *Ctx) cmpBounds(op Op, a, b *Term) *Term {
	signed := op == OSlt || op == OSle
	bounds := func(t *Term) (lo, hi *big.Int) {
		lo, hi = new(big.Int), new(big.Int)
		sh := 0
		ss := c.segs(t, nil)
		for i, s := range ss {
			l, h := new(big.Int), new(big.Int)
			if s.Op == OConst {
				l.Set(s.UBig())
				h.Set(l)
			} else {
				h.Sub(h.Lsh(big.NewInt(1), uint(s.W)), big.NewInt(1))
			}
			if signed && i == len(ss)-1 { // top segment: two's complement
				m := new(big.Int).Lsh(big.NewInt(1), uint(s.W))
				half := new(big.Int).Rsh(m, 1)
				if s.Op != OConst {
					l.Neg(half)
					h.Sub(half, big.NewInt(1))
				} else if l.Cmp(half) >= 0 {
					l.Sub(l, m)
					h.Set(l)
				}
			}
			lo.Add(lo, l.Lsh(l, uint(sh)))
			hi.Add(hi, h.Lsh(h, uint(sh)))
			sh += s.W
		}
		return
	}
	al, ah := bounds(a)
	bl, bh := bounds(b)
	strict := op == OUlt || op == OSlt
	k := 0
	if !strict {
		k = 1
	}
	if ah.Cmp(bl) < k { // ah < bl, or ah <= bl
		return c.tru
	}
	if al.Cmp(bh) >= k && (strict || al.Cmp(bh) > 0) {
		return c.fls
	}
	return nil
}

func (c *Ctx) cmp(op Op, a, b *Term) *Term {
	same(a, b)
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(cmpConst(op, a, b))
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	if (a.Op == OConcat || b.Op == OConcat) && a.W <= 512 {
		if r := c.cmpBounds(op, a, b); r != nil {
			return r
		}
	}
	// comparisons of zero-extended values against constants
	if op == OSlt || op == OSle {
		az := a.Op == OZext || a.Op == OConst && !signBit(a)
		bz := b.Op == OZext || b.Op == OConst && !signBit(b)
		if az && bz {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		}
		if a.Op == OZext && b.Op == OConst && signBit(b) {
			return c.fls
		}
		if b.Op == OZext && a.Op == OConst && signBit(a) {
			return c.tru
		}
	}
	if op == OUlt && c.isZero(b) {
		return c.fls
	}
	if op == OUle && c.isZero(a) {
		return c.tru
	}
	if (op == OUlt || op == OUle) && a.Op == OZext && b.Op == OConst {
		n := a.A[0].W
		if !c.isZero(c.Extract(b, b.W-1, n)) {
			return c.tru
		}
		return c.cmp(op, a.A[0], c.Extract(b, n-1, 0))
	}
	if (op == OUlt || op == OUle) && b.Op == OZext && a.Op == OConst {
		n := b.A[0].W
		if !c.isZero(c.Extract(a, a.W-1, n)) {
			return c.fls
		}
		return c.cmp(op, c.Extract(a, n-1, 0), b.A[0])
	}
	return c.bin(op, 0, a, b)
}

func signBit(t *Term) bool {
	if t.Big != nil {
		return t.Big.Bit(t.W-1) == 1
	}
	return t.V>>(uint(t.W)-1)&1 == 1
}

func (c *Ctx) Ult(a, b *Term) *Term { return c.cmp(OUlt, a, b) }
func (c *Ctx) Ule(a, b *Term) *Term { return c.cmp(OUle, a, b) }
func (c *Ctx) Slt(a, b *Term) *Term { return c.cmp(OSlt, a, b) }
func (c *Ctx) Sle(a, b *Term) *Term { return c.cmp(OSle, a, b) }
func (c *Ctx) Ugt(a, b *Term) *Term { return c.cmp(OUlt, b, a) }
func (c *Ctx) Uge(a, b *Term) *Term { return c.cmp(OUle, b, a) }
func (c *Ctx) Sgt(a, b *Term) *Term { return c.cmp(OSlt, b, a) }
func (c *Ctx) Sge(a, b *Term) *Term { return c.cmp(OSle, b, a) }

// UF applies an uninterpreted function (floating point arithmetic, mostly).
// Constant arguments are folded through NativeUF when it knows the function.
func (c *Ctx) UF(name string, ret int, args ...*Term) *Term {
	allc := true
	for _, a := range args {
		if a.Op != OConst {
			allc = false
		}
	}
	if allc {
		vs := make([]uint64, len(args))
		for i, a := range args {
			vs[i] = a.U64()
		}
		if r, ok := NativeUF(name, ret, vs); ok {
			if ret == 0 {
				return c.Bool(r != 0)
			}
			return c.BV(ret, r)
		}
	}
	if strings.HasSuffix(name, ".from.u64") && args[0].Op == OZext { // nonnegative: same as the signed conversion
		name = name[:3] + ".from.s64"
	}
	if t := c.floatOp(name, args); t != nil {
		return t
	}
	full := name
	ws := make([]int, len(args))
	var sb strings.Builder
	for i, a := range args {
		ws[i] = a.W
		fmt.Fprintf(&sb, "%d,", a.ID)
	}
	if d, ok := c.UFs[full]; ok {
		if d.Ret != ret || len(d.Args) != len(ws) {
			panic("UF redeclared " + full)
		}
	} else {
		d := &UFDecl{full, ws, ret}
		c.UFs[full] = d
		c.UFList = append(c.UFList, d)
	}
	k := key{op: OUF, w: ret, s: full + "(" + sb.String()}
	if x, ok := c.tab[k]; ok {
		return x
	}
	return c.mk(&Term{Op: OUF, W: ret, A: append([]*Term{}, args...), Name: full}, k)
}

// floatOp expresses comparisons and negation exactly on bit patterns, and
// undoes conversions that cannot lose anything.
func (c *Ctx) floatOp(name string, a []*Term) *Term {
	w := 0
	switch name[:4] {
	case "f32.":
		w = 32
	case "f64.":
		w = 64
	}
	if w == 0 || len(a) == 0 || a[0].W != w {
		return nil
	}
	op := name[4:]
	sign := c.Shl(c.BV(w, 1), c.BV(w, uint64(w-1)))
	switch op {
	case "neg":
		return c.Xor(a[0], sign)
	case "to.f32":
		if a[0].Op == OUF && a[0].Name == "f32.to.f64" {
			return a[0].A[0]
		}
		return nil
	case "to.s64", "to.u64":
		// an integer of at most 53 bits survives the way through a double
		if x := a[0]; w == 64 && x.Op == OUF && x.Name == "f64.from.s64" && smallInt(x.A[0], 53) {
			if op == "to.s64" || x.A[0].Op == OZext {
				return x.A[0]
			}
		}
		return nil
	case "eq", "lt", "le":
	default:
		return nil
	}
	if w == 64 && (hasF32(a[0]) || hasF32(a[1])) {
		// widening is exact: compare as float32
		x, y := c.asF32(a[0]), c.asF32(a[1])
		if x != nil && y != nil {
			return c.floatOp("f32."+op, []*Term{x, y})
		}
		if op == "eq" && (x == nil && a[0].Op == OConst || y == nil && a[1].Op == OConst) {
			return c.fls // no float32 has this value
		}
	}
	inf := c.BV(w, 0x7f800000)
	if w == 64 {
		inf = c.BV(w, 0x7ff0000000000000)
	}
	mag := c.Not(sign)
	nan := func(x *Term) *Term { return c.Ugt(c.And(x, mag), inf) }
	x, y := a[0], a[1]
	ok := c.And(c.Not(nan(x)), c.Not(nan(y)))
	zero := c.Eq(c.And(c.Or(x, y), mag), c.BV(w, 0))
	key := func(x *Term) *Term {
		return c.Ite(c.Eq(c.Extract(x, w-1, w-1), c.BV(1, 1)), c.Not(x), c.Or(x, sign))
	}
	switch op {
	case "eq":
		return c.And(ok, c.Or(c.Eq(x, y), zero))
	case "lt":
		return c.And(ok, c.And(c.Not(zero), c.Ult(key(x), key(y))))
	}
	return c.And(ok, c.Or(zero, c.Ule(key(x), key(y))))
}

func hasF32(t *Term) bool {
	return t.Op == OUF && t.Name == "f32.to.f64" || t.Op == OIte && (hasF32(t.A[1]) || hasF32(t.A[2]))
}

// asF32 is the float32 a double was widened from, if that is known.
func (c *Ctx) asF32(t *Term) *Term {
	switch {
	case t.Op == OUF && t.Name == "f32.to.f64":
		return t.A[0]
	case t.Op == OConst:
		f := math.Float64frombits(t.V)
		if g := float32(f); float64(g) == f {
			return c.BV(32, uint64(math.Float32bits(g)))
		}
	case t.Op == OIte:
		if x, y := c.asF32(t.A[1]), c.asF32(t.A[2]); x != nil && y != nil {
			return c.Ite(t.A[0], x, y)
		}
	}
	return nil
}

// smallInt reports a 64-bit signed value that needs at most n bits.
func smallInt(t *Term, n int) bool {
	switch t.Op {
	case OZext:
		return t.A[0].W < n
	case OSext:
		return t.A[0].W <= n
	}
	return false
}

// FUF applies a UF whose name encodes the operand widths.
func (c *Ctx) BoolToBV(b *Term, w int) *Term { return c.Ite(b, c.BV(w, 1), c.BV(w, 0)) }

func (c *Ctx) NonZero(a *Term) *Term {
	if a.W == 0 {
		return a
	}
	return c.Ne(a, c.BV(a.W, 0))
}

func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			return fmt.Sprint(t.V == 1)
		}
		if t.Big != nil {
			return fmt.Sprintf("0x%s:%d", t.Big.Text(16), t.W)
		}
		return fmt.Sprintf("0x%x:%d", t.V, t.W)
	case OVar:
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	n := opNames[t.Op]
	switch t.Op {
	case ONot:
		n = "not"
	case ONeg:
		n = "neg"
	case OExtract:
		n = fmt.Sprintf("ex[%d:%d]", int(t.V)+t.W-1, t.V)
	case OZext:
		n = fmt.Sprintf("zx%d", t.W)
	case OSext:
		n = fmt.Sprintf("sx%d", t.W)
	case OIte:
		n = "ite"
	case OEq:
		n = "="
	case OUF:
		n = t.Name
	}
	s := "(" + n
	for _, a := range t.A {
		s += " " + a.str(d-1)
	}
	return s + ")"
}

// NativeUF evaluates the floating-point functions on concrete bit patterns.
func NativeUF(name string, ret int, a []uint64) (uint64, bool) {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	f64 := func(u uint64) float64 { return math.Float64frombits(u) }
	f32 := func(u uint64) float32 { return math.Float32frombits(uint32(u)) }
	o64 := func(f float64) (uint64, bool) { return math.Float64bits(f), true }
	o32 := func(f float32) (uint64, bool) { return uint64(math.Float32bits(f)), true }
	switch name {
	case "f64.add":
		return o64(f64(a[0]) + f64(a[1]))
	case "f64.sub":
		return o64(f64(a[0]) - f64(a[1]))
	case "f64.mul":
		return o64(f64(a[0]) * f64(a[1]))
	case "f64.div":
		return o64(f64(a[0]) / f64(a[1]))
	case "f64.rem":
		return o64(math.Mod(f64(a[0]), f64(a[1])))
	case "f64.pow":
		return o64(math.Pow(f64(a[0]), f64(a[1])))
	case "f64.neg":
		return a[0] ^ 1<<63, true
	case "f32.add":
		return o32(f32(a[0]) + f32(a[1]))
	case "f32.sub":
		return o32(f32(a[0]) - f32(a[1]))
	case "f32.mul":
		return o32(f32(a[0]) * f32(a[1]))
	case "f32.div":
		return o32(f32(a[0]) / f32(a[1]))
	case "f32.neg":
		return a[0] ^ 1<<31, true
	case "f64.eq":
		return b2u(f64(a[0]) == f64(a[1])), true
	case "f64.lt":
		return b2u(f64(a[0]) < f64(a[1])), true
	case "f64.le":
		return b2u(f64(a[0]) <= f64(a[1])), true
	case "f32.eq":
		return b2u(f32(a[0]) == f32(a[1])), true
	case "f32.lt":
		return b2u(f32(a[0]) < f32(a[1])), true
	case "f32.le":
		return b2u(f32(a[0]) <= f32(a[1])), true
	case "f32.to.f64":
		return o64(float64(f32(a[0])))
	case "f64.to.f32":
		return o32(float32(f64(a[0])))
	case "f64.from.s64":
		return o64(float64(int64(a[0])))
	case "f64.from.u64":
		return o64(float64(a[0]))
	case "f32.from.s64":
		return o32(float32(int64(a[0])))
	case "f32.from.u64":
		return o32(float32(a[0]))
	case "f64.to.s64":
		f := f64(a[0])
		if f != f || f >= 9.3e18 || f <= -9.3e18 {
			return 0, false
		}
		return uint64(int64(f)), true
	case "js.toint":
		f := f64(a[0])
		if f != f || math.IsInf(f, 0) {
			return 0, true
		}
		return uint64(int64(math.Mod(math.Trunc(f), 1<<32))), true
	case "f64.to.u64":
		f := f64(a[0])
		if f != f || f >= 1.8e19 || f <= -1 {
			return 0, false
		}
		return uint64(f), true
	}
	return 0, false
}
