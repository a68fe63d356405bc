package goi

import (
	"golang.org/x/tools/go/ssa"

	"vsym/sym"
)

// merge executes a branch whose arms are short straight-line code joining in
// one block on both sides and merges the results, so that the path does not
// fork. It returns the join block with its phis already set, or nil.
func (fr *frame) merge(x *ssa.If, c *sym.Term) *ssa.BasicBlock {
	b := x.Block()
	t, f := b.Succs[0], b.Succs[1]
	if t == f {
		return nil
	}
	var j *ssa.BasicBlock
	switch {
	case armOf(t, b) == f:
		j = f
		f = nil
	case armOf(f, b) == t:
		j = t
		t = nil
	case armOf(t, b) != nil && armOf(t, b) == armOf(f, b):
		j = armOf(t, b)
	default:
		return nil
	}
	p := fr.in.P
	type cell struct {
		p        Ptr
		old, val *sym.Term
	}
	var cells []*cell
	idx := map[Ptr]*cell{}
	undo := func() {
		for _, c := range cells {
			*c.p = c.old
		}
	}
	run := func(blk *ssa.BasicBlock) bool {
		if blk == nil {
			return true
		}
		for _, ins := range blk.Instrs[:len(blk.Instrs)-1] {
			p.Step()
			s, ok := ins.(*ssa.Store)
			if !ok {
				fr.instr(ins)
				continue
			}
			a, ok := fr.get(s.Addr).(Ptr)
			if !ok || a == nil {
				return false
			}
			v, ok := fr.get(s.Val).(*sym.Term)
			old, ok2 := (*a).(*sym.Term)
			if !ok || !ok2 || v.W != old.W {
				return false
			}
			e := idx[a]
			if e == nil {
				e = &cell{p: a, old: old}
				idx[a] = e
				cells = append(cells, e)
			}
			*a = v
		}
		return true
	}
	var phis []Value
	ok := p.Speculate(func() bool {
		if !run(t) {
			return false
		}
		var tv []*sym.Term
		for _, e := range cells {
			tv = append(tv, (*e.p).(*sym.Term))
			*e.p = e.old
		}
		if !run(f) {
			return false
		}
		for i, e := range cells {
			fv := (*e.p).(*sym.Term)
			if i < len(tv) {
				fv = p.Ite(c, tv[i], fv)
			} else {
				fv = p.Ite(c, e.old, fv)
			}
			e.val = fv
		}
		for _, ins := range j.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			from := func(arm *ssa.BasicBlock) Value {
				if arm == nil {
					arm = b
				}
				for i, pr := range j.Preds {
					if pr == arm {
						return fr.get(ph.Edges[i])
					}
				}
				return nil
			}
			a, ok1 := from(t).(*sym.Term)
			d, ok2 := from(f).(*sym.Term)
			if !ok1 || !ok2 || a.W != d.W {
				return false
			}
			phis = append(phis, p.Ite(c, a, d))
		}
		return true
	})
	if !ok {
		undo()
		return nil
	}
	for _, e := range cells {
		*e.p = e.val
	}
	for i, v := range phis {
		fr.set(j.Instrs[i].(*ssa.Phi), v)
	}
	return j
}

// armOf returns the block a straight-line arm jumps to, or nil.
func armOf(b, from *ssa.BasicBlock) *ssa.BasicBlock {
	if len(b.Preds) != 1 || b.Preds[0] != from || len(b.Instrs) > 24 {
		return nil
	}
	for i, ins := range b.Instrs {
		if i == len(b.Instrs)-1 {
			if _, ok := ins.(*ssa.Jump); ok {
				return b.Succs[0]
			}
			return nil
		}
		switch ins.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Store, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return nil
}
