package codec

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"vsym/sym"
	"vsym/wire"
)

// Op is one recorded operation on generated code.
type Op struct {
	Job   *Job
	Kind  string // encode, fresh, encsize, decsize, decode, get, set
	St    *wire.Struct
	Init  *wire.Val // object state before (nil: default)
	Buf   []*sym.Term
	Start int
	M     *wire.Method
	Arg   *sym.Term
	Res   Res
	After *wire.Val   // decode, set
	Own   bool        // alias: the bytes fields refer to the whole buffer before
	Buf2  []*sym.Term // alias: what the buffer holds after decoding
	Poke  []Poke      // alias: what is then written to the fields
	Fn    string      // call: harness function
	HArgs []HArg
	Fail  string // call: violated clause
}

// Poke is content written over a bytes field.
type Poke struct {
	F *wire.Field
	B []*sym.Term
}

// Rec records the operations of a path.
type Rec struct {
	S   Session
	P   *sym.Path
	Job *Job
	Ops []*Op
}

func NewRec(j *Job, p *sym.Path) *Rec { return &Rec{S: j.Prog.Session(p), P: p, Job: j} }

func (r *Rec) add(o *Op) *Op {
	o.Job = r.Job
	r.Ops = append(r.Ops, o)
	return o
}

func cloneBuf(b []*sym.Term) []*sym.Term { return append([]*sym.Term{}, b...) }

func (r *Rec) Encode(st *wire.Struct, v *wire.Val, buf []*sym.Term, start int) Res {
	o := r.S.New(st)
	SetAll(r.S, o, st, v)
	op := r.add(&Op{Kind: "encode", St: st, Init: v, Buf: cloneBuf(buf), Start: start})
	op.Res = r.S.Encode(o, st, cloneBuf(buf), start)
	return op.Res
}

func (r *Rec) EncodeFresh(st *wire.Struct, v *wire.Val) (Res, bool) {
	o := r.S.New(st)
	SetAll(r.S, o, st, v)
	res, ok := r.S.EncodeFresh(o, st)
	if ok {
		op := r.add(&Op{Kind: "fresh", St: st, Init: v})
		op.Res = res
	}
	return res, ok
}

func (r *Rec) EncodeSize(st *wire.Struct, v *wire.Val) Res {
	o := r.S.New(st)
	SetAll(r.S, o, st, v)
	op := r.add(&Op{Kind: "encsize", St: st, Init: v})
	op.Res = r.S.EncodeSize(o, st)
	return op.Res
}

func (r *Rec) DecodeSize(st *wire.Struct, buf []*sym.Term, start int) Res {
	op := r.add(&Op{Kind: "decsize", St: st, Buf: cloneBuf(buf), Start: start})
	op.Res = r.S.DecodeSize(st, cloneBuf(buf), start)
	return op.Res
}

// Decode decodes into an object whose prior state is init (nil: fresh).
func (r *Rec) Decode(st *wire.Struct, init *wire.Val, buf []*sym.Term, start int) (Res, *wire.Val) {
	o := r.S.New(st)
	if init != nil {
		SetAll(r.S, o, st, init)
	}
	op := r.add(&Op{Kind: "decode", St: st, Init: init, Buf: cloneBuf(buf), Start: start})
	op.Res = r.S.Decode(o, st, cloneBuf(buf), start)
	if op.Res.Exc == "" && r.P.Branch(r.P.Sge(r.ret64(op.Res), r.P.BV(64, 0))) {
		op.After = GetAll(r.S, o, st)
		r.getTrap(op)
	}
	return op.Res, op.After
}

// Alias decodes into a new object, replaces the buffer's content by buf2, reads
// the object (After), writes to its bytes fields and reads the buffer (Res.Buf).
// poke gives the content written to a field. With own the object's bytes fields
// refer to the buffer already before it is decoded.
func (r *Rec) Alias(st *wire.Struct, buf, buf2 []*sym.Term, start int, own bool, poke func(f *wire.Field, n int) []*sym.Term) *Op {
	m, ok := r.S.(Mutator)
	if !ok {
		sym.Unsupported("no access to live buffers")
	}
	o := r.S.New(st)
	op := r.add(&Op{Kind: "alias", St: st, Own: own, Buf: cloneBuf(buf), Start: start, Buf2: cloneBuf(buf2)})
	h := m.NewBuf(cloneBuf(buf))
	for _, f := range st.Flat() {
		if own && topBytes(f) {
			m.FieldOwn(o, st, f, h)
		}
	}
	res := m.DecodeKeep(o, st, h, start)
	op.Res = res
	if res.Exc != "" || !r.P.Branch(r.P.Sge(r.ret64(res), r.P.BV(64, 0))) {
		return op
	}
	for i, b := range buf2 {
		m.BufSet(h, i, b)
	}
	op.After = GetAll(r.S, o, st)
	r.getTrap(op)
	if op.Res.Exc != "" {
		return op
	}
	for _, f := range st.Flat() {
		if !topBytes(f) {
			continue
		}
		b := poke(f, len(op.After.F[f.Name].B))
		op.Poke = append(op.Poke, Poke{f, b})
		for i := range b {
			m.FieldByteSet(o, st, f, i, b[i])
		}
	}
	op.Res.Buf = nil
	for i := range buf {
		op.Res.Buf = append(op.Res.Buf, m.BufGet(h, i))
	}
	return op
}

func topBytes(f *wire.Field) bool { return f.Kind == wire.KBytes && f.N == 0 && f.Const == "" }

// CanOwn reports whether a target's bytes fields can be made to refer to a buffer.
func CanOwn(j *Job) bool {
	return j.Target == "go" || (j.Target == "commonjs" || j.Target == "esmodule") && !j.Has("-compat")
}

// getTrap notes a trap raised while reading the decoded object.
func (r *Rec) getTrap(op *Op) {
	if g, ok := r.S.(interface{ GetTrap() string }); ok {
		if t := g.GetTrap(); t != "" {
			op.Res.Exc = "reading a field: " + t
		}
	}
}

func (r *Rec) ret64(x Res) *sym.Term {
	if x.Ret == nil {
		return r.P.BV(64, 0)
	}
	return r.P.Sext(x.Ret, 64)
}

func (r *Rec) Get(st *wire.Struct, v *wire.Val, m *wire.Method) Res {
	o := r.S.New(st)
	SetAll(r.S, o, st, v)
	op := r.add(&Op{Kind: "get", St: st, Init: v, M: m})
	op.Res = r.S.CallGet(o, st, m)
	return op.Res
}

func (r *Rec) SetM(st *wire.Struct, v *wire.Val, m *wire.Method, arg *sym.Term) (Res, *wire.Val) {
	o := r.S.New(st)
	SetAll(r.S, o, st, v)
	op := r.add(&Op{Kind: "set", St: st, Init: v, M: m, Arg: arg})
	op.Res = r.S.CallSet(o, st, m, arg)
	if op.Res.Exc == "" {
		op.After = GetAll(r.S, o, st)
	}
	return op.Res, op.After
}

// Concrete evaluates an operation under a model.
func (o *Op) Concrete(c *sym.Ctx, m sym.Model) *Op {
	n := *o
	n.Init = wire.EvalVal(c, m, o.Init)
	n.Buf = evalBuf(c, m, o.Buf)
	n.Buf2 = evalBuf(c, m, o.Buf2)
	n.Poke = nil
	for _, p := range o.Poke {
		n.Poke = append(n.Poke, Poke{p.F, evalBuf(c, m, p.B)})
	}
	n.After = wire.EvalVal(c, m, o.After)
	n.Res.Buf = evalBuf(c, m, o.Res.Buf)
	if o.Res.Ret != nil {
		n.Res.Ret = c.Eval(o.Res.Ret, m)
	}
	if o.Arg != nil {
		n.Arg = c.Eval(o.Arg, m)
	}
	if o.HArgs != nil {
		n.HArgs = nil
		for _, a := range o.HArgs {
			if a.T != nil {
				a.T = c.Eval(a.T, m)
			} else {
				a.B = evalBuf(c, m, a.B)
			}
			n.HArgs = append(n.HArgs, a)
		}
	}
	return &n
}

func evalBuf(c *sym.Ctx, m sym.Model, b []*sym.Term) []*sym.Term {
	if b == nil {
		return nil
	}
	r := make([]*sym.Term, len(b))
	for i := range b {
		r[i] = c.Eval(b[i], m)
	}
	return r
}

// Bytes of a concrete buffer.
func Bytes(b []*sym.Term) []byte {
	r := make([]byte, len(b))
	for i := range b {
		if b[i].IsConst() {
			r[i] = byte(b[i].V)
		}
	}
	return r
}

func ground(t *sym.Term) bool { return t == nil || t.IsConst() }

// Lines is the canonical rendering of a concrete operation's outcome, or
// ok=false when something in it is not a constant (uninterpreted floats).
func (o *Op) Lines(c *sym.Ctx) (ls []string, ok bool) {
	r := o.Res
	if r.Exc != "" {
		return []string{"exc"}, true
	}
	if !ground(r.Ret) {
		return nil, false
	}
	switch o.Kind {
	case "call":
		for _, b := range r.Buf {
			if !ground(b) {
				return nil, false
			}
		}
		return []string{fmt.Sprintf("fail=%s obs=%s", o.Fail, hex.EncodeToString(Bytes(r.Buf)))}, true
	case "encode", "fresh":
		for _, b := range r.Buf {
			if !ground(b) {
				return nil, false
			}
		}
		return []string{fmt.Sprintf("ret=%d buf=%s", retS(r.Ret), hex.EncodeToString(Bytes(r.Buf)))}, true
	case "encsize", "decsize":
		return []string{fmt.Sprintf("ret=%d", retS(r.Ret))}, true
	case "decode":
		rv := retS(r.Ret)
		if rv < 0 {
			return []string{fmt.Sprintf("ret=%d", rv)}, true
		}
		ls = []string{fmt.Sprintf("ret=%d", rv)}
		return o.fieldLines(ls, o.St, o.After, "")
	case "alias":
		rv := retS(r.Ret)
		ls = []string{fmt.Sprintf("ret=%d", rv)}
		if rv < 0 {
			return ls, true
		}
		ls, ok = o.fieldLines(ls, o.St, o.After, "")
		for _, b := range r.Buf {
			if !ground(b) {
				return nil, false
			}
		}
		return append(ls, "buf="+hex.EncodeToString(Bytes(r.Buf))), ok
	case "get":
		if k := o.M.Kind; r.Ret.W > kindWidth(k) && k != wire.KBool {
			return o.valLines(nil, &wire.Field{Kind: k, Bits: k.Width()}, &wire.Val{T: r.Ret}, "val")
		}
		return []string{fmt.Sprintf("val=%s", hexNum(r.Ret, kindWidth(o.M.Kind)))}, true
	case "set":
		return o.fieldLines(nil, o.St, o.After, "")
	}
	return nil, false
}

func kindWidth(k wire.Kind) int {
	if k == wire.KBool {
		return 8
	}
	return k.Width()
}

func retS(t *sym.Term) int64 {
	if t == nil {
		return 0
	}
	return t.S64()
}

func hexNum(t *sym.Term, w int) string {
	v := t.UBig()
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v.Mod(v, m)
	return v.Text(16)
}

func (o *Op) fieldLines(ls []string, st *wire.Struct, v *wire.Val, pre string) ([]string, bool) {
	for _, f := range st.Flat() {
		if f.Kind == wire.KVoid || f.Const != "" {
			continue
		}
		var ok bool
		ls, ok = o.valLines(ls, f, v.F[f.Name], pre+f.Name)
		if !ok {
			return nil, false
		}
	}
	return ls, true
}

func (o *Op) valLines(ls []string, f *wire.Field, v *wire.Val, path string) ([]string, bool) {
	if f.N > 0 {
		g := *f
		g.N, g.Bits = 0, f.ElemBits()
		for i, e := range v.Elems {
			var ok bool
			if ls, ok = o.valLines(ls, &g, e, fmt.Sprintf("%s.%d", path, i)); !ok {
				return nil, false
			}
		}
		return ls, true
	}
	switch f.Kind {
	case wire.KStruct:
		return o.fieldLines(ls, f.Struct, v, path+".")
	case wire.KString, wire.KBytes:
		return append(ls, path+"="+hex.EncodeToString(Bytes(v.B))), true
	}
	if v.T == nil || !v.T.IsConst() {
		return nil, false
	}
	if f.Kind == wire.KBool {
		return append(ls, fmt.Sprintf("%s=%x", path, v.T.V)), true
	}
	x := hexNum(v.T, v.T.W)
	if v.T.W > f.StoreBits() {
		w := f.StoreBits()
		b := v.T.SBig()
		lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(w)) // [lo, hi)
		if f.Kind.Signed() {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		if b.Cmp(lo) >= 0 && b.Cmp(hi) < 0 {
			x = hexNum(v.T, w)
		} else {
			x = "!" + b.String() // outside the field's type
		}
	}
	if f.Kind == wire.KF32 && isNaN32(uint32(v.T.V)) || f.Kind == wire.KF64 && isNaN64(v.T.V) {
		x = "nan"
	}
	return append(ls, path+"="+x), true
}

func isNaN32(x uint32) bool { return x&0x7fffffff > 0x7f800000 }
func isNaN64(x uint64) bool { return x&0x7fffffffffffffff > 0x7ff0000000000000 }

// Describe is a human-readable account of a concrete operation.
func (o *Op) Describe() string {
	var sb strings.Builder
	if o.Kind == "call" {
		fmt.Fprintf(&sb, "%s(", o.Fn)
		for i, a := range o.HArgs {
			if i > 0 {
				sb.WriteString(", ")
			}
			if a.T != nil {
				fmt.Fprint(&sb, a.T.SBig())
			} else {
				fmt.Fprintf(&sb, "%q", Bytes(a.B))
			}
		}
		sb.WriteString(")")
		return sb.String()
	}
	fmt.Fprintf(&sb, "%s %s.%s (target %s, options %v)", o.Kind, o.Job.Unit.Pkg, o.St.Name, o.Job.Target, o.Job.Opts)
	if o.Init != nil {
		ls, _ := o.fieldLines(nil, o.St, o.Init, "")
		fmt.Fprintf(&sb, "\n    object: %s", strings.Join(ls, " "))
	}
	if o.Buf != nil {
		fmt.Fprintf(&sb, "\n    buffer: %s start=%d", hex.EncodeToString(Bytes(o.Buf)), o.Start)
	}
	if o.Arg != nil && o.Arg.IsConst() {
		fmt.Fprintf(&sb, "\n    argument bits: %x", o.Arg.U64())
	}
	if o.M != nil {
		fmt.Fprintf(&sb, "\n    method: %s: %s", o.M.Name, o.M.Expr)
	}
	return sb.String()
}

// DriverEmitter renders a driver program's statements for an operation.
type leaf struct {
	f    *wire.Field // scalar / string / bytes field (element view)
	top  string      // declared field name chain, with indices
	path []step
	v    *wire.Val
}

type step struct {
	f   *wire.Field
	idx int // -1: not indexed
}

// leaves lists every scalar/string/bytes location of a struct; v may be nil.
func leaves(st *wire.Struct, v *wire.Val, pre []step, consts bool) []leaf {
	var out []leaf
	for _, f := range st.Flat() {
		if f.Kind == wire.KVoid || f.Const != "" {
			continue
		}
		var fv *wire.Val
		if v != nil {
			fv = v.F[f.Name]
			if fv == nil {
				continue
			}
		}
		n := f.Count()
		for i := 0; i < n; i++ {
			idx := -1
			ev := fv
			if f.N > 0 {
				idx = i
				if fv != nil {
					ev = fv.Elems[i]
				}
			}
			path := append(append([]step{}, pre...), step{f, idx})
			if f.Kind == wire.KStruct {
				out = append(out, leaves(f.Struct, ev, path, consts)...)
				continue
			}
			g := *f
			g.N, g.Bits = 0, f.ElemBits()
			out = append(out, leaf{f: &g, path: path, v: ev})
		}
	}
	return out
}

func (l leaf) label() string {
	var sb strings.Builder
	for i, s := range l.path {
		if i > 0 {
			sb.WriteByte('.')
		}
		sb.WriteString(s.f.Name)
		if s.idx >= 0 {
			fmt.Fprintf(&sb, ".%d", s.idx)
		}
	}
	return sb.String()
}

// SplitOutput groups driver output ("#i" headers) by operation.
func SplitOutput(out string, n int) [][]string {
	res := make([][]string, n)
	cur := -1
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "#") {
			fmt.Sscanf(l, "#%d", &cur)
			continue
		}
		if cur >= 0 && cur < n {
			res[cur] = append(res[cur], l)
		}
	}
	return res
}
