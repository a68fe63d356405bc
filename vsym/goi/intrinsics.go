package goi

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"vsym/sym"
)

func (in *Interp) floatConst(f float64, w int) *sym.Term {
	if w == 32 {
		return in.P.BV(32, uint64(math.Float32bits(float32(f))))
	}
	return in.P.BV(64, math.Float64bits(f))
}

func nilErr() Value { return Iface{} }

// intrinsics replace functions the interpreter cannot or should not execute.
var intrinsics map[string]Intrinsic

func init() {
	ident := func(in *Interp, fr *frame, a []Value) Value { return a[0] }
	nop := func(in *Interp, fr *frame, a []Value) Value { return Tuple(nil) }
	intrinsics = map[string]Intrinsic{
		"math.Float32bits":     ident,
		"math.Float64bits":     ident,
		"math.Float32frombits": ident,
		"math.Float64frombits": ident,
		"math.Pow": func(in *Interp, fr *frame, a []Value) Value {
			return in.P.UF("f64.pow", 64, a[0].(*sym.Term), a[1].(*sym.Term))
		},
		"math.Mod": func(in *Interp, fr *frame, a []Value) Value {
			return in.P.UF("f64.rem", 64, a[0].(*sym.Term), a[1].(*sym.Term))
		},
		"runtime.KeepAlive":       nop,
		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.Once).Do": func(in *Interp, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			if !in.once[p] {
				in.once[p] = true
				in.callValue(fr, a[1], nil)
			}
			return Tuple(nil)
		},
		"strings.Clone": ident,
		"internal/bytealg.IndexByteString": func(in *Interp, fr *frame, a []Value) Value {
			return in.indexByte(in.StrBytes(a[0].(*Str)), a[1].(*sym.Term), false)
		},
		"internal/bytealg.IndexByte": func(in *Interp, fr *frame, a []Value) Value {
			return in.indexByte(sliceTerms(a[0]), a[1].(*sym.Term), false)
		},
		"internal/bytealg.LastIndexByteString": func(in *Interp, fr *frame, a []Value) Value {
			return in.indexByte(in.StrBytes(a[0].(*Str)), a[1].(*sym.Term), true)
		},
		"internal/bytealg.CountString": func(in *Interp, fr *frame, a []Value) Value {
			return in.countByte(in.StrBytes(a[0].(*Str)), a[1].(*sym.Term))
		},
		"internal/bytealg.Count": func(in *Interp, fr *frame, a []Value) Value {
			return in.countByte(sliceTerms(a[0]), a[1].(*sym.Term))
		},
		"strings.Index": func(in *Interp, fr *frame, a []Value) Value {
			return in.indexSub(in.StrBytes(a[0].(*Str)), in.StrBytes(a[1].(*Str)))
		},
		"bytes.IndexByte": func(in *Interp, fr *frame, a []Value) Value {
			return in.indexByte(sliceTerms(a[0]), a[1].(*sym.Term), false)
		},
		"bytes.Equal": func(in *Interp, fr *frame, a []Value) Value {
			x, y := a[0].(Slice), a[1].(Slice)
			if len(x) != len(y) {
				return in.P.False()
			}
			r := in.P.True()
			for i := range x {
				r = in.P.And(r, in.Eq(x[i], y[i]))
			}
			return r
		},
		"(*strings.Builder).copyCheck": nop,
		"(*strings.Builder).String": func(in *Interp, fr *frame, a []Value) Value {
			st := (*in.deref(a[0])).(Struct)
			s, _ := st[1].(Slice)
			return in.mkstr(sliceTerms(s))
		},
		"(*strings.Builder).grow":    nop,
		"(*strings.Builder).Grow":    nop,
		"internal/stringslite.Clone": ident,
		"unsafe.String": func(in *Interp, fr *frame, a []Value) Value {
			sym.Unsupported("unsafe.String")
			return nil
		},
		"fmt.Sprintf":  func(in *Interp, fr *frame, a []Value) Value { return in.sprintf(a[0].(*Str), a[1]) },
		"fmt.Sprint":   func(in *Interp, fr *frame, a []Value) Value { return in.sprint(a[0], false) },
		"fmt.Sprintln": func(in *Interp, fr *frame, a []Value) Value { return in.sprint(a[0], true) },
		"fmt.Errorf": func(in *Interp, fr *frame, a []Value) Value {
			return in.newError(in.sprintf(a[0].(*Str), a[1]))
		},
		"errors.New": func(in *Interp, fr *frame, a []Value) Value { return in.newError(a[0].(*Str)) },
		"fmt.Println": func(in *Interp, fr *frame, a []Value) Value {
			return Tuple{in.P.BV(64, 0), nilErr()}
		},
		"fmt.Printf": func(in *Interp, fr *frame, a []Value) Value {
			return Tuple{in.P.BV(64, 0), nilErr()}
		},
		"fmt.Print": func(in *Interp, fr *frame, a []Value) Value {
			return Tuple{in.P.BV(64, 0), nilErr()}
		},
		"fmt.Fprintf": func(in *Interp, fr *frame, a []Value) Value {
			return Tuple{in.P.BV(64, 0), nilErr()}
		},
		"fmt.Fprintln": func(in *Interp, fr *frame, a []Value) Value {
			return Tuple{in.P.BV(64, 0), nilErr()}
		},
		"sort.Slice": func(in *Interp, fr *frame, a []Value) Value {
			s := a[0].(Iface).V.(Slice)
			in.sortBy(s, func(i, j int) bool {
				r := in.callValue(fr, a[1], []Value{in.P.BV(64, uint64(i)), in.P.BV(64, uint64(j))})
				return in.P.Branch(r.(*sym.Term))
			})
			return Tuple(nil)
		},
		"sort.Strings": func(in *Interp, fr *frame, a []Value) Value {
			s := a[0].(Slice)
			in.sortBy(s, func(i, j int) bool { return in.P.Branch(in.strLess(s[i].(*Str), s[j].(*Str))) })
			return Tuple(nil)
		},
		"os.Exit": func(in *Interp, fr *frame, a []Value) Value {
			panic(&GoPanic{RT: fmt.Sprintf("os.Exit(%v)", a[0])})
		},
		"os.Getenv":               func(in *Interp, fr *frame, a []Value) Value { return in.str("") },
		"sync/atomic.AddInt32":    func(in *Interp, fr *frame, a []Value) Value { return in.atomicAdd(a) },
		"sync/atomic.AddInt64":    func(in *Interp, fr *frame, a []Value) Value { return in.atomicAdd(a) },
		"sync/atomic.LoadInt32":   func(in *Interp, fr *frame, a []Value) Value { return *in.deref(a[0]) },
		"sync/atomic.LoadUint32":  func(in *Interp, fr *frame, a []Value) Value { return *in.deref(a[0]) },
		"sync/atomic.LoadInt64":   func(in *Interp, fr *frame, a []Value) Value { return *in.deref(a[0]) },
		"sync/atomic.StoreInt32":  func(in *Interp, fr *frame, a []Value) Value { *in.deref(a[0]) = a[1]; return Tuple(nil) },
		"sync/atomic.StoreUint32": func(in *Interp, fr *frame, a []Value) Value { *in.deref(a[0]) = a[1]; return Tuple(nil) },
		"sync/atomic.StoreInt64":  func(in *Interp, fr *frame, a []Value) Value { *in.deref(a[0]) = a[1]; return Tuple(nil) },
		"time.Now": func(in *Interp, fr *frame, a []Value) Value {
			return in.Zero(fr.fn.Signature.Results().At(0).Type())
		},
		"reflect.TypeOf": func(in *Interp, fr *frame, a []Value) Value {
			f := a[0].(Iface)
			return Iface{fr.fn.Signature.Results().At(0).Type(), &NativeObj{Call: func(in *Interp, m string, as []Value) Value {
				t := f.T
				return in.typeMethod(t, m, as)
			}}}
		},
	}
}

func (in *Interp) typeMethod(t types.Type, m string, as []Value) Value {
	switch m {
	case "String":
		return in.str(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return in.str(n.Obj().Name())
		}
		return in.str("")
	}
	sym.Unsupported("reflect.Type.%s", m)
	return nil
}

func (in *Interp) atomicAdd(a []Value) Value {
	p := in.deref(a[0])
	*p = in.P.Add((*p).(*sym.Term), a[1].(*sym.Term))
	return *p
}

// sortBy is an insertion sort driven by an index comparison on the live slice.
func (in *Interp) sortBy(s Slice, less func(i, j int) bool) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func sliceTerms(v Value) []*sym.Term {
	s, _ := v.(Slice)
	r := make([]*sym.Term, len(s))
	for i := range s {
		r[i] = s[i].(*sym.Term)
	}
	return r
}

func (in *Interp) indexByte(b []*sym.Term, c *sym.Term, last bool) Value {
	p := in.P
	r := p.SBV(64, -1)
	if last {
		for i := 0; i < len(b); i++ {
			r = p.Ite(p.Known(p.Eq(b[i], c)), p.BV(64, uint64(i)), r)
		}
		return r
	}
	for i := len(b) - 1; i >= 0; i-- {
		r = p.Ite(p.Known(p.Eq(b[i], c)), p.BV(64, uint64(i)), r)
	}
	return r
}

func (in *Interp) countByte(b []*sym.Term, c *sym.Term) Value {
	p := in.P
	r := p.BV(64, 0)
	for i := range b {
		r = p.Add(r, p.BoolToBV(p.Known(p.Eq(b[i], c)), 64))
	}
	return r
}

func (in *Interp) indexSub(b, c []*sym.Term) Value {
	p := in.P
	r := p.SBV(64, -1)
	for i := len(b) - len(c); i >= 0; i-- {
		m := p.True()
		for j := range c {
			m = p.And(m, p.Known(p.Eq(b[i+j], c[j])))
		}
		r = p.Ite(m, p.BV(64, uint64(i)), r)
	}
	return r
}

func (in *Interp) newError(s *Str) Value {
	pkg := in.Prog.Pkgs["errors"]
	if pkg == nil {
		sym.Unsupported("errors package not loaded")
	}
	t := pkg.Type("errorString").Type()
	p := new(Value)
	*p = Struct{s}
	return Iface{types.NewPointer(t), p}
}

// ToGo renders a concrete value for formatting; symbolic scalars become a marker.
func (in *Interp) ToGo(v Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case Iface:
		if x.T == nil {
			return nil
		}
		// error / Stringer
		for _, m := range []string{"Error", "String"} {
			if fn := in.methodByName(x.T, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
				if q, ok := x.V.(Ptr); ok && q == nil {
					return "<nil>"
				}
				r := in.call(fn, []Value{x.V}, nil)
				return in.ToGo(Iface{types.Typ[types.String], r})
			}
		}
		return in.goOf(x.T, x.V)
	}
	return in.goOf(nil, v)
}

const symMark = "\u27e8sym\u27e9"

func (in *Interp) goOf(t types.Type, v Value) any {
	switch x := v.(type) {
	case *Str:
		if x.B != nil {
			return symMark
		}
		return x.S
	case *sym.Term:
		if !x.IsConst() {
			return symText{}
		}
		if x.W == 0 {
			return x.V == 1
		}
		if t != nil {
			bi, _ := basic(t)
			if bi.float {
				if bi.w == 32 {
					return math.Float32frombits(uint32(x.V))
				}
				return math.Float64frombits(x.V)
			}
			if bi.signed {
				return x.S64()
			}
			if bi.w == 8 {
				return uint8(x.V)
			}
			return x.V
		}
		return x.S64()
	case Slice:
		var out []any
		var el types.Type
		if t != nil {
			if st, ok := t.Underlying().(*types.Slice); ok {
				el = st.Elem()
			}
		}
		for _, e := range x {
			if el != nil {
				if _, ok := el.Underlying().(*types.Interface); !ok {
					out = append(out, in.ToGo(Iface{el, e}))
					continue
				}
			}
			out = append(out, in.ToGo(e))
		}
		return out
	case Ptr:
		if x == nil {
			return nil
		}
		return symPtrText{}
	case Iface:
		return in.ToGo(x)
	}
	return symText{}
}

type symText struct{}

func (symText) String() string             { return symMark }
func (symText) Format(f fmt.State, c rune) { f.Write([]byte(symMark)) }

type symPtrText struct{}

func (symPtrText) Format(f fmt.State, c rune) { f.Write([]byte("0xptr")) }

func (in *Interp) methodByName(t types.Type, name string) *ssaFunc {
	methMu.Lock()
	defer methMu.Unlock()
	ms := in.Prog.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return in.Prog.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (in *Interp) sprintf(f *Str, args Value) *Str {
	s, _ := args.(Slice)
	if f.B != nil {
		return in.str(symMark)
	}
	// exact symbolic substitution when only plain %s / %v verbs with strings occur
	anySym := false
	for _, a := range s {
		if i, ok := a.(Iface); ok {
			if q, ok := i.V.(*Str); ok && q.B != nil {
				anySym = true
			}
		}
	}
	if anySym {
		if r, ok := in.sprintfSym(f.S, s); ok {
			return r
		}
		return in.str(symMark)
	}
	gs := make([]any, len(s))
	for i := range s {
		gs[i] = in.ToGo(s[i])
	}
	return in.str(fmt.Sprintf(f.S, gs...))
}

func (in *Interp) sprintfSym(f string, s Slice) (*Str, bool) {
	var out []*sym.Term
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, in.P.BV(8, uint64(f[i])))
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			out = append(out, in.P.BV(8, '%'))
			continue
		}
		if k >= len(s) {
			return nil, false
		}
		a := s[k].(Iface)
		k++
		if q, ok := a.V.(*Str); ok && (f[i] == 's' || f[i] == 'v') {
			out = append(out, in.StrBytes(q)...)
			continue
		}
		out = append(out, in.StrBytes(in.str(fmt.Sprintf("%"+string(f[i]), in.ToGo(a))))...)
	}
	return in.mkstr(out), true
}

func (in *Interp) sprint(args Value, ln bool) *Str {
	s, _ := args.(Slice)
	gs := make([]any, len(s))
	for i := range s {
		gs[i] = in.ToGo(s[i])
	}
	if ln {
		return in.str(fmt.Sprintln(gs...))
	}
	return in.str(fmt.Sprint(gs...))
}

// natives run real library functions when every argument is concrete.
var natives = map[string]NativeCall{}

func reg(name string, f any) {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	natives[name] = func(in *Interp, args []Value) (Value, bool) {
		if rt.IsVariadic() || rt.NumIn() != len(args) {
			return nil, false
		}
		as := make([]reflect.Value, len(args))
		for i, a := range args {
			x, ok := toReflect(a, rt.In(i))
			if !ok {
				return nil, false
			}
			as[i] = x
		}
		out := rv.Call(as)
		if len(out) == 1 {
			return in.fromReflect(out[0]), true
		}
		t := make(Tuple, len(out))
		for i := range out {
			t[i] = in.fromReflect(out[i])
		}
		return t, true
	}
}

func toReflect(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(*Str)
		if !ok || s.B != nil {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(s.S).Convert(t), true
	case reflect.Bool:
		x, ok := v.(*sym.Term)
		if !ok || !x.IsConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.V == 1).Convert(t), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, ok := v.(*sym.Term)
		if !ok || !x.IsConst() {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		r.SetInt(x.S64())
		return r, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, ok := v.(*sym.Term)
		if !ok || !x.IsConst() {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		r.SetUint(x.U64())
		return r, true
	case reflect.Float64:
		x, ok := v.(*sym.Term)
		if !ok || !x.IsConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(math.Float64frombits(x.V)).Convert(t), true
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i := range s {
			e, ok := toReflect(s[i], t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(e)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (in *Interp) fromReflect(v reflect.Value) Value {
	p := in.P
	switch v.Kind() {
	case reflect.String:
		return in.str(v.String())
	case reflect.Bool:
		return p.Bool(v.Bool())
	case reflect.Int, reflect.Int64:
		return p.SBV(64, v.Int())
	case reflect.Int32:
		return p.SBV(32, v.Int())
	case reflect.Int16:
		return p.SBV(16, v.Int())
	case reflect.Int8:
		return p.SBV(8, v.Int())
	case reflect.Uint, reflect.Uint64:
		return p.BV(64, v.Uint())
	case reflect.Uint32:
		return p.BV(32, v.Uint())
	case reflect.Uint8:
		return p.BV(8, v.Uint())
	case reflect.Float64:
		return in.floatConst(v.Float(), 64)
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		s := make(Slice, v.Len())
		for i := range s {
			s[i] = in.fromReflect(v.Index(i))
		}
		return s
	case reflect.Interface:
		if v.IsNil() {
			return Iface{}
		}
		if e, ok := v.Interface().(error); ok {
			return in.newError(in.str(e.Error()))
		}
	}
	sym.Unsupported("native result kind %s", v.Kind())
	return nil
}

func init() {
	reg("strings.Split", strings.Split)
	reg("strings.SplitN", strings.SplitN)
	reg("strings.Join", strings.Join)
	reg("strings.Contains", strings.Contains)
	reg("strings.ContainsRune", strings.ContainsRune)
	reg("strings.HasPrefix", strings.HasPrefix)
	reg("strings.HasSuffix", strings.HasSuffix)
	reg("strings.Index", strings.Index)
	reg("strings.LastIndex", strings.LastIndex)
	reg("strings.IndexByte", strings.IndexByte)
	reg("strings.Repeat", strings.Repeat)
	reg("strings.Replace", strings.Replace)
	reg("strings.ReplaceAll", strings.ReplaceAll)
	reg("strings.ToLower", strings.ToLower)
	reg("strings.ToUpper", strings.ToUpper)
	reg("strings.Title", strings.Title)
	reg("strings.Trim", strings.Trim)
	reg("strings.TrimSpace", strings.TrimSpace)
	reg("strings.TrimLeft", strings.TrimLeft)
	reg("strings.TrimRight", strings.TrimRight)
	reg("strings.TrimPrefix", strings.TrimPrefix)
	reg("strings.TrimSuffix", strings.TrimSuffix)
	reg("strings.Fields", strings.Fields)
	reg("strings.EqualFold", strings.EqualFold)
	reg("strings.Count", strings.Count)
	reg("strconv.Itoa", strconv.Itoa)
	reg("strconv.Atoi", strconv.Atoi)
	reg("strconv.ParseInt", strconv.ParseInt)
	reg("strconv.ParseUint", strconv.ParseUint)
	reg("strconv.ParseFloat", strconv.ParseFloat)
	reg("strconv.FormatInt", strconv.FormatInt)
	reg("strconv.FormatUint", strconv.FormatUint)
	reg("strconv.Quote", strconv.Quote)
	reg("strconv.Unquote", strconv.Unquote)
	reg("unicode.IsUpper", unicode.IsUpper)
	reg("unicode.IsLower", unicode.IsLower)
	reg("unicode.IsLetter", unicode.IsLetter)
	reg("unicode.IsDigit", unicode.IsDigit)
	reg("unicode.IsNumber", unicode.IsNumber)
	reg("unicode.IsSpace", unicode.IsSpace)
	reg("unicode.ToUpper", unicode.ToUpper)
	reg("unicode.ToLower", unicode.ToLower)
	reg("utf8.RuneCountInString", utf8.RuneCountInString)
	_ = os.Stderr
}
