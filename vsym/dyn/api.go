package dyn

import "vsym/sym"

// Accessors used by the sessions of package codec.

func (m *M) Term(v Value) *sym.Term     { return m.term(v) }
func (m *M) MkBool(t *sym.Term) Value   { return m.mkBool(t) }
func (m *M) MkFlt(t *sym.Term) Value    { return m.mkFlt(t) }
func (m *M) IsInt(v Value) bool         { return isInt(v) }
func (m *M) StrOf(v Value) (*Str, bool) { return m.str(v) }

// FltTerm is a number as a double.
func (m *M) FltTerm(v Value) (*sym.Term, bool) {
	switch v.(type) {
	case float64, Flt:
		return m.fltT(v), true
	case int64, Int:
		return m.fltT(m.IntToFlt(v)), true
	case quot:
		return m.fltT(m.quotFlt(v.(quot))), true
	}
	return nil, false
}

// Terms are the bytes of a window.
func (v *View) Terms() []*sym.Term {
	var r []*sym.Term
	for i := 0; i < v.N; i++ {
		r = append(r, v.Buf.B[v.Off+i].(*sym.Term))
	}
	return r
}

func (b *Buf) Terms() []*sym.Term {
	r := make([]*sym.Term, len(b.B))
	for i := range r {
		r[i] = b.B[i].(*sym.Term)
	}
	return r
}

func (m *M) PyIsProperty(c *Class, k string) bool {
	v, ok := c.find(k)
	if !ok {
		return false
	}
	_, is := v.(*pyProp)
	return is
}

func (m *M) apiFrame() *pyFrame { return &pyFrame{m: m, mod: &PyMod{}, vars: map[string]*Value{}} }

var apiNode = &Node{T: "API"}

func (m *M) PySetAttr(o *Obj, k string, v Value) { m.apiFrame().setattr(apiNode, o, k, v) }
func (m *M) PyGetAttr(o *Obj, k string) Value    { return m.apiFrame().getattr(apiNode, o, k) }

func (m *M) PyCallMethod(o *Obj, name string, a []Value) Value {
	b, ok := m.apiFrame().getattr(apiNode, o, name).(*Bound)
	if !ok {
		m.raise("AttributeError", "%s", name)
	}
	return m.CallPy(b.Fn.(*Func), append([]Value{b.This}, a...), nil)
}

func (m *M) MkNum(t *sym.Term) Value          { return m.mkNum(t) }
func (m *M) JsGetProp(o *Obj, k string) Value { return m.jsGet(o, o, k) }
func (m *M) JsCallMethod(o *Obj, name string, a []Value) Value {
	f := &jsFrame{m: m}
	return f.call(apiNode, m.jsGet(o, o, name), o, a)
}
