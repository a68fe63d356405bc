package sym

import "math/bits"

// Bit-slice normalisation: masks, shifts and merges of bit fields become
// concatenations of extracts, so that most codec identities hold syntactically.

const maxSegs = 160

func (c *Ctx) segs(t *Term, out []*Term) []*Term { // low to high
	switch t.Op {
	case OConcat:
		return c.segs(t.A[0], c.segs(t.A[1], out))
	case OZext:
		return append(c.segs(t.A[0], out), c.BV(t.W-t.A[0].W, 0))
	}
	return append(out, t)
}

func hasConstSeg(ts []*Term) bool {
	for _, t := range ts {
		if t.Op == OConst {
			return true
		}
	}
	return false
}

// align cuts two segment lists at each other's boundaries.
func (c *Ctx) align(a, b []*Term) (x, y []*Term) {
	i, j := 0, 0
	var ca, cb *Term
	for {
		if ca == nil {
			if i == len(a) {
				return
			}
			ca = a[i]
			i++
		}
		if cb == nil {
			cb = b[j]
			j++
		}
		switch {
		case ca.W == cb.W:
			x, y = append(x, ca), append(y, cb)
			ca, cb = nil, nil
		case ca.W < cb.W:
			x, y = append(x, ca), append(y, c.Extract(cb, ca.W-1, 0))
			cb = c.Extract(cb, cb.W-1, ca.W)
			ca = nil
		default:
			x, y = append(x, c.Extract(ca, cb.W-1, 0)), append(y, cb)
			ca = c.Extract(ca, ca.W-1, cb.W)
			cb = nil
		}
	}
}

// runs splits a constant into runs of equal bits, low to high; nil if too many.
func (c *Ctx) runs(t *Term) []*Term {
	if t.W > 64 {
		if c.isZero(t) || c.isOnes(t) {
			return []*Term{t}
		}
		var out []*Term
		for lo := 0; lo < t.W; lo += 64 {
			hi := lo + 63
			if hi >= t.W {
				hi = t.W - 1
			}
			r := c.runs(c.Extract(t, hi, lo))
			if r == nil {
				return nil
			}
			out = append(out, r...)
		}
		return out
	}
	if bits.OnesCount64((t.V^t.V<<1)&maskU(t.W)) > 24 {
		return nil
	}
	var out []*Term
	v, w := t.V, t.W
	for w > 0 {
		n := 0
		if v&1 == 0 {
			n = bits.TrailingZeros64(v)
		} else {
			n = bits.TrailingZeros64(^v)
		}
		if n > w {
			n = w
		}
		if v&1 == 0 {
			out = append(out, c.BV(n, 0))
		} else {
			out = append(out, c.BV(n, maskU(n)))
		}
		if n == 64 {
			break
		}
		v >>= uint(n)
		w -= n
	}
	return out
}

func (c *Ctx) splitConsts(ts []*Term) ([]*Term, bool) {
	var out []*Term
	for _, t := range ts {
		if t.Op != OConst {
			out = append(out, t)
			continue
		}
		r := c.runs(t)
		if r == nil {
			return nil, false
		}
		out = append(out, r...)
	}
	return out, len(out) <= maxSegs
}

// split64 cuts wide constants into words.
func (c *Ctx) split64(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		for t.Op == OConst && t.W > 64 {
			out = append(out, c.Extract(t, 63, 0))
			t = c.Extract(t, t.W-1, 64)
		}
		out = append(out, t)
	}
	return out
}

func (c *Ctx) join(ts []*Term) *Term {
	r := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		r = c.Concat(r, ts[i])
	}
	return r
}

// bitwise normalises And, Or and Xor; nil when there is nothing to gain.
func (c *Ctx) bitwise(op Op, a, b *Term) *Term {
	sa, sb := c.segs(a, nil), c.segs(b, nil)
	if !hasConstSeg(sa) && !hasConstSeg(sb) {
		if len(sa) == 1 || len(sb) == 1 || len(sa)+len(sb) > maxSegs {
			return nil
		}
	}
	sa, ok1 := c.splitConsts(sa)
	sb, ok2 := c.splitConsts(sb)
	if !ok1 || !ok2 {
		return nil
	}
	x, y := c.align(sa, sb)
	gain := false
	for i := range x {
		if x[i].Op == OConst || y[i].Op == OConst || x[i] == y[i] {
			gain = true
		}
	}
	if !gain || len(x) > maxSegs {
		return nil
	}
	out := make([]*Term, len(x))
	for i := range x {
		p, q := x[i], y[i]
		if p.Op == OConst {
			p, q = q, p
		}
		switch {
		case p.Op == OConst || p == q && op != OXor: // both constant or equal
			if p == q {
				if op == OXor {
					out[i] = c.BV(p.W, 0)
				} else {
					out[i] = p
				}
			} else {
				out[i] = c.arith(op, p, q)
			}
		case p == q:
			out[i] = c.BV(p.W, 0)
		case c.isZero(q):
			if op == OAnd {
				out[i] = q
			} else {
				out[i] = p
			}
		case c.isOnes(q):
			switch op {
			case OAnd:
				out[i] = p
			case OOr:
				out[i] = q
			default:
				out[i] = c.Not(p)
			}
		default:
			if len(x) == 1 {
				return nil
			}
			out[i] = c.rawBin(op, p, q)
		}
	}
	return c.join(out)
}

func (c *Ctx) rawBin(op Op, a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.bin(op, a.W, a, b)
}

// disjoint reports that no bit position can be set in both terms.
func (c *Ctx) disjoint(a, b *Term) bool {
	sa, sb := c.segs(a, nil), c.segs(b, nil)
	if !hasConstSeg(sa) || !hasConstSeg(sb) {
		if !(hasConstSeg(sa) && len(sb) == 1 || hasConstSeg(sb) && len(sa) == 1) {
			return false
		}
	}
	sa, ok1 := c.splitConsts(sa)
	sb, ok2 := c.splitConsts(sb)
	if !ok1 || !ok2 {
		return false
	}
	x, y := c.align(sa, sb)
	for i := range x {
		if !c.isZero(x[i]) && !c.isZero(y[i]) {
			return false
		}
	}
	return true
}

// iteSegs pushes a choice into the segments that differ; nil when nothing is shared.
func (c *Ctx) iteSegs(cond, a, b *Term) *Term {
	sa, sb := c.segs(a, nil), c.segs(b, nil)
	if len(sa) == 1 && len(sb) == 1 && (a.Op != OConst || b.Op != OConst) || len(sa)+len(sb) > maxSegs {
		return nil
	}
	sa, sb = c.split64(sa), c.split64(sb)
	x, y := c.align(sa, sb)
	// constant pairs: split where they agree
	var p, q []*Term
	gain := false
	for i := range x {
		if x[i].Op == OConst && y[i].Op == OConst && x[i] != y[i] && x[i].W <= 64 {
			d := c.BV(x[i].W, x[i].V^y[i].V)
			r := c.runs(d)
			if r != nil && len(r) > 1 && len(r) <= 8 {
				lo := 0
				for _, s := range r {
					p = append(p, c.Extract(x[i], lo+s.W-1, lo))
					q = append(q, c.Extract(y[i], lo+s.W-1, lo))
					lo += s.W
				}
				gain = true
				continue
			}
		}
		if x[i] == y[i] {
			gain = true
		}
		p, q = append(p, x[i]), append(q, y[i])
	}
	if !gain || len(p) < 2 {
		return nil
	}
	out := make([]*Term, len(p))
	for i := range p {
		out[i] = c.Ite(cond, p[i], q[i])
	}
	return c.join(out)
}
