package checks

import (
	"fmt"

	"vsym/codec"
	"vsym/sym"
	"vsym/wire"
)

// aliases reports whether decoded content of a kind refers to the input.
func aliases(j *codec.Job, k wire.Kind) bool {
	if j.Has("-memcpy") {
		return false
	}
	switch j.Target {
	case "go", "cpp", "csharp":
		return k == wire.KBytes
	case "c":
		return k == wire.KBytes || k == wire.KString
	}
	return false
}

// aliasAt decodes one buffer, changes it, reads the object, writes to the
// object's bytes fields and reads the buffer.
//
// With own the object's bytes fields refer to the buffer before decoding, as
// they may when an object is used again.
func aliasAt(j *codec.Job, st *wire.Struct, n, start int, own bool) *Item {
	tag := ""
	if own {
		tag = ".own"
	}
	return &Item{Name: fmt.Sprintf("%s/%s/%s#alias.len%d.at%d%s%v", j.Target, j.Unit.Pkg, st.Name, n, start, tag, j.Opts), Target: j.Target, Traces: 2, MaxPaths: 3000, Run: func(x *X) {
		buf := symBuf(x.Path, "b", start+n)
		pos := map[*sym.Term]int{}
		for i, b := range buf {
			pos[b] = i
		}
		out := wire.DecodeComplete(x.Path, st, buf[start:])
		if !out.OK {
			x.Abort("frame is incomplete")
		}
		plain(x, j, st, out.V)
		// the buffer's later content: free where variable content lies
		buf2 := cloneTerms(buf)
		k := 0
		later := func(v *wire.Val, text bool) *wire.Val {
			w := &wire.Val{}
			for _, b := range v.B {
				i, ok := pos[b]
				if !ok {
					x.Check("content lies in the buffer", x.False())
					return v
				}
				buf2[i] = x.Var(fmt.Sprintf("n%d", k), 8)
				k++
				if text {
					x.AssumeQuiet(x.Not(x.Eq(buf2[i], x.BV(8, 0))))
				}
				w.B = append(w.B, buf2[i])
			}
			return w
		}
		var change func(f *wire.Field, v *wire.Val) *wire.Val
		changeAll := func(st *wire.Struct, v *wire.Val) *wire.Val {
			w := &wire.Val{F: map[string]*wire.Val{}}
			for _, f := range st.Flat() {
				if y := v.F[f.Name]; y != nil {
					w.F[f.Name] = change(f, y)
				}
			}
			return w
		}
		change = func(f *wire.Field, v *wire.Val) *wire.Val {
			switch {
			case f.N > 0:
				g := *f
				g.N, g.Bits = 0, f.ElemBits()
				w := &wire.Val{}
				for _, e := range v.Elems {
					w.Elems = append(w.Elems, change(&g, e))
				}
				return w
			case f.Kind == wire.KStruct:
				return changeAll(f.Struct, v)
			case f.Kind == wire.KString || f.Kind == wire.KBytes:
				w := later(v, f.Kind == wire.KString)
				if aliases(j, f.Kind) {
					return w
				}
			}
			return v
		}
		want := changeAll(st, out.V)
		end := cloneTerms(buf2)
		r := x.Rec(j)
		op := r.Alias(st, buf, buf2, start, own, func(f *wire.Field, n int) []*sym.Term {
			var b []*sym.Term
			for i := 0; i < n; i++ {
				t := x.Var(fmt.Sprintf("w%d", k), 8)
				k++
				b = append(b, t)
				if v := out.V.F[f.Name]; aliases(j, f.Kind) && i < len(v.B) {
					end[pos[v.B[i]]] = t
				}
			}
			return b
		})
		x.Check("decode completes", x.Bool(op.Res.Exc == ""))
		if op.Res.Exc != "" {
			return
		}
		x.Check("decode accepts the frame", x.Sge(ret64(x.Ctx, op.Res), x.BV(64, 0)))
		if op.After == nil {
			return
		}
		x.Check("after the buffer has changed, the fields hold what the options promise", codec.EqStruct(x.Ctx, st, want, op.After))
		x.Check("after the fields have changed, the buffer holds what the options promise", sameBytes(x.Ctx, end, op.Res.Buf))
	}}
}

func cloneTerms(b []*sym.Term) []*sym.Term { return append([]*sym.Term{}, b...) }

func hasBytes(st *wire.Struct) bool {
	for _, f := range st.Flat() {
		if f.Kind == wire.KBytes && f.N == 0 && f.Const == "" {
			return true
		}
	}
	return false
}

func runC12(r *Run) {
	units := append(append(r.dynUnits(), r.nestUnits()...), r.mixUnits()...)
	jobs := r.Prepare(r.jobsFor(units, r.Targets, func(t string, u *wire.Unit) [][]string {
		return [][]string{nil, {"-memcpy"}}
	}))
	ex := []int{1, 3}
	if !r.Quick() {
		ex = []int{0, 1, 2, 3, 4, 5}
	}
	for _, j := range jobs {
		for _, st := range j.Unit.Structs {
			if !st.Dynamic() {
				continue
			}
			for i, e := range ex {
				r.Add(aliasAt(j, st, minSize(st)+e, i%2*3, false))
				if i > 0 && codec.CanOwn(j) && hasBytes(st) {
					r.Add(aliasAt(j, st, minSize(st)+e, 0, true))
				}
			}
		}
	}
	r.Bounds = append(r.Bounds, "the variable-size, nesting and mixed schemas with and without -memcpy; content of 1 and 3 bytes (thorough 0..5) beyond the smallest frame in every division among the fields; every byte of every variable-size field in the buffer replaced after decoding, then every byte of every top-level bytes field; for Go and JavaScript also into an object whose bytes fields refer to the buffer beforehand; both old and new contents symbolic")
	r.Execute()
}
