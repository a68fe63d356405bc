// Package wire describes schemas, renders them as bubbler source and states
// the documented wire format independently of /repo.
package wire

import (
	"fmt"
	"strings"
)

type Kind int

const (
	KBool Kind = iota
	KU8
	KU16
	KU32
	KU64
	KI8
	KI16
	KI32
	KI64
	KF32
	KF64
	KEnum
	KString
	KBytes
	KStruct
	KVoid
	KEmbed
)

var kindNames = map[Kind]string{KBool: "bool", KU8: "uint8", KU16: "uint16", KU32: "uint32", KU64: "uint64",
	KI8: "int8", KI16: "int16", KI32: "int32", KI64: "int64", KF32: "float32", KF64: "float64", KString: "string", KBytes: "bytes", KVoid: "void"}

func (k Kind) String() string { return kindNames[k] }

// Width is the natural width of a scalar kind.
func (k Kind) Width() int {
	switch k {
	case KBool:
		return 1
	case KU8, KI8:
		return 8
	case KU16, KI16:
		return 16
	case KU32, KI32, KF32:
		return 32
	case KU64, KI64, KF64:
		return 64
	}
	return 0
}

func (k Kind) Signed() bool { return k >= KI8 && k <= KI64 }
func (k Kind) Float() bool  { return k == KF32 || k == KF64 }
func (k Kind) Scalar() bool { return k <= KEnum }

type Enum struct {
	Name   string
	Bits   int
	Names  []string
	Values []uint64
}

type Method struct {
	Set  bool
	Name string
	Kind Kind
	Expr string
	E    *Expr
}

type Field struct {
	Name   string
	Kind   Kind
	Enum   *Enum
	Struct *Struct
	Bits   int // whole field, 0 for dynamic kinds and structs
	N      int // array length, 0 = not an array
	Big    bool
	Const  string // literal text; "" = not constant
	CVal   uint64 // raw constant bits (width Kind.Width or string content in CStr)
	CStr   string
	Meth   []Method
}

type Struct struct {
	Name   string
	Fields []*Field
}

// Unit is one source file.
type Unit struct {
	Pkg     string
	Enums   []*Enum
	Structs []*Struct
}

func bitsText(n int) string {
	switch {
	case n%8 == 0:
		return fmt.Sprintf("[%d]", n/8)
	case n < 8:
		return fmt.Sprintf("[#%d]", n)
	}
	return fmt.Sprintf("[%d#%d]", n/8, n%8)
}

func (f *Field) typeName() string {
	switch f.Kind {
	case KEnum:
		return f.Enum.Name
	case KStruct:
		return f.Struct.Name
	}
	return f.Kind.String()
}

func (f *Field) Source(ind string) string {
	if f.Kind == KVoid {
		return fmt.Sprintf("%svoid%s;\n", ind, bitsText(f.Bits))
	}
	if f.Kind == KEmbed {
		if f.Name != "" { // inline definition
			s := ind + "struct " + f.Struct.Name + " {\n"
			for _, g := range f.Struct.Fields {
				s += g.Source(ind + "  ")
			}
			return s + ind + "};\n"
		}
		return fmt.Sprintf("%s%s;\n", ind, f.Struct.Name)
	}
	var sb strings.Builder
	sb.WriteString(ind + f.typeName())
	if f.N > 0 {
		fmt.Fprintf(&sb, "<%d>", f.N)
	}
	sb.WriteString(" " + f.Name)
	if f.Bits > 0 && f.Kind != KStruct {
		sb.WriteString(bitsText(f.Bits))
	}
	if f.Const != "" {
		sb.WriteString(" = " + f.Const)
	}
	if f.Big {
		sb.WriteString(` [order="big"]`)
	}
	if len(f.Meth) > 0 {
		sb.WriteString(" {\n")
		for _, m := range f.Meth {
			k := "get"
			if m.Set {
				k = "set"
			}
			fmt.Fprintf(&sb, "%s  %s %s(%s): %s;\n", ind, k, m.Name, m.Kind, m.Expr)
		}
		sb.WriteString(ind + "}")
	}
	sb.WriteString(";\n")
	return sb.String()
}

func (u *Unit) Source() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s;\n", u.Pkg)
	for _, e := range u.Enums {
		fmt.Fprintf(&sb, "enum %s%s {\n", e.Name, bitsText(e.Bits))
		for i, n := range e.Names {
			fmt.Fprintf(&sb, "  %s = %d,\n", n, e.Values[i])
		}
		sb.WriteString("};\n")
	}
	for _, s := range u.Structs {
		fmt.Fprintf(&sb, "struct %s {\n", s.Name)
		for _, f := range s.Fields {
			sb.WriteString(f.Source("  "))
		}
		sb.WriteString("};\n")
	}
	return sb.String()
}

// Flat lists the wire fields of a struct, embedded structs expanded.
func (s *Struct) Flat() []*Field {
	var out []*Field
	for _, f := range s.Fields {
		if f.Kind == KEmbed {
			out = append(out, f.Struct.Flat()...)
		} else {
			out = append(out, f)
		}
	}
	return out
}

// Dynamic tells whether the encoded size depends on content.
func (s *Struct) Dynamic() bool {
	for _, f := range s.Flat() {
		if f.Dynamic() {
			return true
		}
	}
	return false
}

func (f *Field) Dynamic() bool {
	switch f.Kind {
	case KString, KBytes:
		return true
	case KStruct:
		return f.Struct.Dynamic()
	}
	return false
}

// Count is the number of elements (1 for a plain field).
func (f *Field) Count() int {
	if f.N > 0 {
		return f.N
	}
	return 1
}

// ElemBits is the wire width of one scalar element.
func (f *Field) ElemBits() int { return f.Bits / f.Count() }

// StoreBits is the width of the in-memory value of a scalar (0: Bool).
func (f *Field) StoreBits() int {
	switch f.Kind {
	case KBool:
		return 0
	case KEnum:
		b := 8
		for b < f.Enum.Bits {
			b *= 2
		}
		return b
	}
	return f.Kind.Width()
}

// FixedBits is the fixed part of the struct's size.
func (s *Struct) FixedBits() int {
	n := 0
	for _, f := range s.Flat() {
		switch f.Kind {
		case KString, KBytes:
		case KStruct:
			n += f.Count() * f.Struct.FixedBits()
		default:
			n += f.Bits
		}
	}
	return n
}
