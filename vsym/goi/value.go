// Package goi executes Go SSA symbolically.
package goi

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"vsym/sym"
)

type Value interface{}

type Str struct {
	S string
	B []*sym.Term // nil when concrete
}

func (s *Str) Len() int {
	if s.B != nil {
		return len(s.B)
	}
	return len(s.S)
}

func (s *Str) Concrete() bool { return s.B == nil }

type Slice []Value // nil slice is Slice(nil)
type Array []Value
type Struct []Value
type Tuple []Value
type Ptr = *Value

// SymPtr is the address of an element with a symbolic index.
type SymPtr struct {
	Elems []Value
	Idx   *sym.Term
}

// CastPtr is a pointer reinterpreted through unsafe.Pointer.
type CastPtr struct {
	P Ptr
	T types.Type
}

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn   *ssa.Function
	Free []Value
}

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	ents []*mapEntry
	idx  map[string]*mapEntry
	nsym int
	n    int
}

// Bound native function value (rare).
type NativeFn struct {
	Name string
	F    func(in *Interp, args []Value) Value
}

type GoPanic struct {
	V  Value
	RT string // runtime error text
}

func (in *Interp) str(s string) *Str { return &Str{S: s} }

// mkstr builds a string from byte terms, normalising constants.
func (in *Interp) mkstr(b []*sym.Term) *Str {
	for _, t := range b {
		if !t.IsConst() {
			return &Str{B: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.V)
	}
	return &Str{S: string(bs)}
}

func (in *Interp) SymStr(b []*sym.Term) *Str { return in.mkstr(b) }

func (in *Interp) StrBytes(s *Str) []*sym.Term {
	if s.B != nil {
		return s.B
	}
	r := make([]*sym.Term, len(s.S))
	for i := range r {
		r[i] = in.P.BV(8, uint64(s.S[i]))
	}
	return r
}

func isNamedStructOrArray(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	}
	return v
}

type basicInfo struct {
	w      int
	signed bool
	float  bool
}

func basic(t types.Type) (basicInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return basicInfo{}, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return basicInfo{0, false, false}, true
	case types.Int, types.Int64, types.UntypedInt:
		return basicInfo{64, true, false}, true
	case types.Int8:
		return basicInfo{8, true, false}, true
	case types.Int16:
		return basicInfo{16, true, false}, true
	case types.Int32, types.UntypedRune:
		return basicInfo{32, true, false}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return basicInfo{64, false, false}, true
	case types.Uint8:
		return basicInfo{8, false, false}, true
	case types.Uint16:
		return basicInfo{16, false, false}, true
	case types.Uint32:
		return basicInfo{32, false, false}, true
	case types.Float32:
		return basicInfo{32, true, true}, true
	case types.Float64, types.UntypedFloat:
		return basicInfo{64, true, true}, true
	}
	return basicInfo{}, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Zero builds the zero value of a type.
func (in *Interp) Zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return Ptr(nil)
		}
		if u.Info()&types.IsString != 0 {
			return &Str{}
		}
		if u.Kind() == types.UntypedNil {
			return Ptr(nil)
		}
		bi, ok := basic(t)
		if !ok {
			sym.Unsupported("zero of %s", t)
		}
		if bi.w == 0 {
			return in.P.False()
		}
		return in.P.BV(bi.w, 0)
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = in.Zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.Zero(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = in.Zero(u.At(i).Type())
		}
		return r
	}
	sym.Unsupported("zero of %s", t)
	return nil
}

type Chan struct{}

// Eq is equality as a Bool term.
func (in *Interp) Eq(a, b Value) *sym.Term {
	p := in.P
	switch x := a.(type) {
	case *sym.Term:
		return p.Known(p.Eq(x, b.(*sym.Term)))
	case *Str:
		y := b.(*Str)
		if x.Len() != y.Len() {
			return p.False()
		}
		if x.B == nil && y.B == nil {
			return p.Bool(x.S == y.S)
		}
		xb, yb := in.StrBytes(x), in.StrBytes(y)
		r := p.True()
		for i := range xb {
			r = p.And(r, p.Known(p.Eq(xb[i], yb[i])))
		}
		return r
	case Struct:
		y := b.(Struct)
		r := p.True()
		for i := range x {
			r = p.And(r, in.Eq(x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		r := p.True()
		for i := range x {
			r = p.And(r, in.Eq(x[i], y[i]))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			sym.Unsupported("iface compare with %T", b)
		}
		if x.T == nil || y.T == nil {
			return p.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return p.False()
		}
		return in.Eq(x.V, y.V)
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return p.Bool(x == y)
		case *CastPtr:
			return p.Bool(x == y.P)
		}
		return p.False()
	case *CastPtr:
		switch y := b.(type) {
		case Ptr:
			return p.Bool(x.P == y)
		case *CastPtr:
			return p.Bool(x.P == y.P)
		}
		return p.False()
	case Slice:
		if y, ok := b.(Slice); ok && (x == nil || y == nil) {
			return p.Bool(x == nil && y == nil)
		}
	case *Map:
		return p.Bool(x == b.(*Map))
	case *Closure:
		switch y := b.(type) {
		case *Closure:
			return p.Bool(x == y)
		}
		return p.False()
	case *ssa.Function:
		if y, ok := b.(*Closure); ok && y == nil {
			return p.False()
		}
		return p.Bool(b == Value(x))
	case *NativeFn:
		return p.Bool(b == Value(x))
	case *Chan:
		return p.Bool(b == Value(x))
	case nil:
		return p.Bool(b == nil)
	}
	sym.Unsupported("compare %T", a)
	return nil
}

// keyOf renders a concrete map key; ok=false when symbolic.
func keyOf(v Value) (string, bool) {
	switch x := v.(type) {
	case *sym.Term:
		if !x.IsConst() {
			return "", false
		}
		return fmt.Sprintf("i%d", x.V), true
	case *Str:
		if x.B != nil {
			return "", false
		}
		return "s" + x.S, true
	case Iface:
		if x.T == nil {
			return "nil", true
		}
		k, ok := keyOf(x.V)
		return x.T.String() + ":" + k, ok
	case Ptr:
		return fmt.Sprintf("p%p", x), true
	case Struct:
		return keyList(x)
	case Array:
		return keyList(x)
	case *ssa.Function, *Closure:
		return fmt.Sprintf("f%p", x), true
	}
	sym.Unsupported("map key %T", v)
	return "", false
}

func keyList(x []Value) (string, bool) {
	var sb strings.Builder
	sb.WriteByte('{')
	for _, e := range x {
		k, ok := keyOf(e)
		if !ok {
			return "", false
		}
		fmt.Fprintf(&sb, "%d:%s,", len(k), k)
	}
	sb.WriteByte('}')
	return sb.String(), true
}

func newMap() *Map { return &Map{idx: map[string]*mapEntry{}} }

func (in *Interp) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ks, ok := keyOf(k)
	if ok {
		if e := m.idx[ks]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if in.P.Branch(in.Eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	if m == nil {
		panic(&GoPanic{RT: "assignment to entry in nil map"})
	}
	if e := in.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ks, ok := keyOf(k); ok {
		m.idx[ks] = e
	} else {
		m.nsym++
	}
}

func (in *Interp) mapDel(m *Map, k Value) {
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ks, ok := keyOf(e.k); ok {
		delete(m.idx, ks)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.n < len(m.ents)/2 {
		var live []*mapEntry
		for _, x := range m.ents {
			if !x.dead {
				live = append(live, x)
			}
		}
		m.ents = live
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type ssaFunc = ssa.Function

// Text is a concrete string value.
func (in *Interp) Text(s string) *Str { return in.str(s) }
