package codec

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"slices"

	"vsym/sym"
	"vsym/wire"
)

// The replay drivers of Python, JavaScript, Java and C# read operations as
// JSON lines in one common form.

type dynOp struct {
	File   string    `json:"file"`
	Dir    string    `json:"dir"`
	Pkg    string    `json:"pkg"`
	St     string    `json:"st"`
	Kind   string    `json:"kind"`
	Start  int       `json:"start"`
	Buf    string    `json:"buf"`
	Init   *dynVal   `json:"init,omitempty"`
	Leaves []dynLeaf `json:"leaves,omitempty"`
	Meth   string    `json:"meth,omitempty"`
	MK     string    `json:"mk,omitempty"`
	MW     int       `json:"mw,omitempty"`
	Arg    *dynVal   `json:"arg,omitempty"`
	Buf2   string    `json:"buf2,omitempty"`
	Own    []string  `json:"own,omitempty"` // fields that refer to the buffer before
	Poke   []dynPoke `json:"poke,omitempty"`
	Compat bool      `json:"compat,omitempty"`
}

type dynPoke struct {
	N string `json:"n"`
	V string `json:"v"`
}

type dynVal struct {
	K string     `json:"k"`
	T string     `json:"t,omitempty"`
	V string     `json:"v"`
	W int        `json:"w,omitempty"`
	E []*dynVal  `json:"e,omitempty"`
	F []dynField `json:"f,omitempty"`
}

type dynField struct {
	N string  `json:"n"`
	V *dynVal `json:"v"`
}

type dynLeaf struct {
	Label string   `json:"label"`
	Path  [][2]any `json:"path"`
	K     string   `json:"k"`
	W     int      `json:"w"`
	T     string   `json:"t,omitempty"`
}

func dynKind(f *wire.Field) (k string, w int, t string) {
	switch f.Kind {
	case wire.KString:
		return "str", 0, ""
	case wire.KBytes:
		return "bytes", 0, ""
	case wire.KBool:
		return "bool", 1, ""
	case wire.KF32:
		return "f32", 32, ""
	case wire.KF64:
		return "f64", 64, ""
	case wire.KEnum:
		return "enum", f.StoreBits(), f.Enum.Name
	}
	if f.Kind.Signed() {
		return fmt.Sprintf("i%d", f.Kind.Width()), f.Kind.Width(), ""
	}
	return fmt.Sprintf("u%d", f.Kind.Width()), f.Kind.Width(), ""
}

func dynOf(f *wire.Field, v *wire.Val) *dynVal {
	if f.N > 0 {
		g := *f
		g.N, g.Bits = 0, f.ElemBits()
		d := &dynVal{K: "arr"}
		if f.Kind == wire.KStruct {
			d.T = f.Struct.Name
		}
		for _, e := range v.Elems {
			d.E = append(d.E, dynOf(&g, e))
		}
		return d
	}
	if f.Kind == wire.KStruct {
		return dynStruct(f.Struct, v)
	}
	k, w, t := dynKind(f)
	d := &dynVal{K: k, W: w, T: t}
	switch f.Kind {
	case wire.KString, wire.KBytes:
		d.V = hex.EncodeToString(Bytes(v.B))
	case wire.KBool:
		d.V = fmt.Sprint(v.T.V & 1)
	default:
		d.V = intText(f, v.T)
	}
	return d
}

// intText is the decimal value: wide terms (values outside the field's type)
// are signed.
func intText(f *wire.Field, t *sym.Term) string {
	if f.Kind.Signed() || t.W > f.StoreBits() {
		return t.SBig().String()
	}
	return t.UBig().String()
}

func dynStruct(st *wire.Struct, v *wire.Val) *dynVal {
	d := &dynVal{K: "struct", T: st.Name}
	for _, f := range st.Flat() {
		if f.Kind == wire.KVoid || f.Const != "" || v.F[f.Name] == nil {
			continue
		}
		d.F = append(d.F, dynField{f.Name, dynOf(f, v.F[f.Name])})
	}
	return d
}

func toDyn(o *Op, file string) *dynOp {
	d := &dynOp{File: file, Dir: o.Job.Dir, Pkg: o.Job.Unit.Pkg, St: o.St.Name, Kind: o.Kind, Start: o.Start, Buf: hex.EncodeToString(Bytes(o.Buf)), Compat: slices.Contains(o.Job.Opts, "-compat")}
	if o.Init != nil {
		d.Init = dynStruct(o.St, o.Init)
	}
	if o.Kind == "alias" {
		d.Buf2 = hex.EncodeToString(Bytes(o.Buf2))
		for _, f := range o.St.Flat() {
			if o.Own && topBytes(f) {
				d.Own = append(d.Own, f.Name)
			}
		}
		for _, k := range o.Poke {
			d.Poke = append(d.Poke, dynPoke{k.F.Name, hex.EncodeToString(Bytes(k.B))})
		}
	}
	for _, l := range dumpLeaves(o) {
		x := dynLeaf{Label: l.label()}
		x.K, x.W, x.T = dynKind(l.f)
		for _, s := range l.path {
			x.Path = append(x.Path, [2]any{s.f.Name, s.idx})
		}
		d.Leaves = append(d.Leaves, x)
	}
	if o.M != nil {
		g := &wire.Field{Kind: o.M.Kind}
		d.Meth = o.M.Name
		d.MK, d.MW, _ = dynKind(g)
		if o.M.Set && o.Arg != nil {
			t := o.Arg
			v := &dynVal{K: d.MK, W: d.MW}
			if o.M.Kind == wire.KBool {
				v.V = fmt.Sprint(t.V & 1)
			} else {
				v.V = intText(g, t)
			}
			d.Arg = v
		}
	}
	return d
}

// writeOps stores operations as JSON lines.
func writeOps(e *Env, name string, ops []*Op, file func(o *Op) string) (string, error) {
	f, err := os.CreateTemp(e.Scratch, name)
	if err != nil {
		return "", err
	}
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	for _, o := range ops {
		if err := enc.Encode(toDyn(o, file(o))); err != nil {
			return "", err
		}
	}
	if err := w.Flush(); err != nil {
		return "", err
	}
	return f.Name(), f.Close()
}
