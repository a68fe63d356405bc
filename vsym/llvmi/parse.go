// Package llvmi executes textual LLVM IR symbolically.
package llvmi

import (
	"fmt"
	"os"
	"strings"
	"sync"
)

// Type is an LLVM type.
type Type struct {
	K      byte // 'i' int, 'f' float32, 'd' float64, 'p' ptr, 'a' array, 's' struct, 'v' void, 'V' vector
	W      int
	N      int
	El     *Type
	Fields []*Type
	Packed bool
	size   int
	align  int
	offs   []int
	once   sync.Once
}

func align(n, a int) int { return (n + a - 1) / a * a }

func (t *Type) layout() { t.once.Do(t.layout1) }

func (t *Type) layout1() {
	switch t.K {
	case 'i':
		n := (t.W + 7) / 8
		s := 1
		for s < n {
			s *= 2
		}
		t.size, t.align = s, s
		if t.W > 64 {
			t.size, t.align = 16, 16
		}
	case 'f':
		t.size, t.align = 4, 4
	case 'd', 'p':
		t.size, t.align = 8, 8
	case 'a', 'V':
		t.El.layout()
		t.size, t.align = t.N*t.El.size, t.El.align
	case 's':
		a := 1
		off := 0
		for _, f := range t.Fields {
			f.layout()
			fa := f.align
			if t.Packed {
				fa = 1
			}
			if fa > a {
				a = fa
			}
			off = align(off, fa)
			t.offs = append(t.offs, off)
			off += f.size
		}
		t.size, t.align = align(off, a), a
	default:
		t.size, t.align = 0, 1
	}
}

func (t *Type) Size() int { t.layout(); return t.size }

// Opnd is an operand.
type Opnd struct {
	K    byte // 'l' local, 'g' global, 'c' int const, 'n' null, 'u' undef/poison, 'z' zero, 'F' float bits, 'A' aggregate, 'S' string, 'E' constant expression
	Name string
	V    uint64
	Neg  bool
	T    *Type
	L    []*Opnd
	Op   string
	ETy  *Type
	slot int
}

type instr struct {
	op    string
	dst   int
	ty    *Type
	ty2   *Type
	a     []*Opnd
	pred  string
	lab   []string
	cases []*Opnd
	flags string
	idx   []int
	byval []*Type
	text  string
}

type block struct {
	name string
	ins  []*instr
}

// Func is a function.
type Func struct {
	Name   string
	ret    *Type
	params []string
	ptys   []*Type
	body   []string
	first  string
	once   sync.Once
	blocks map[string]*block
	entry  *block
	nslots int
	pslots []int
	err    error
	mod    *Module
}

type Global struct {
	Name  string
	T     *Type
	Init  *Opnd
	Const bool
}

// Module is a parsed module.
type Module struct {
	Types   map[string]*Type
	Funcs   map[string]*Func
	Globals map[string]*Global
	Alias   map[string]string
	mu      sync.Mutex
}

type lex struct {
	s string
	p int
	m *Module
	f *fparse
}

type fparse struct {
	slots map[string]int
}

func (f *fparse) slot(n string) int {
	if s, ok := f.slots[n]; ok {
		return s
	}
	s := len(f.slots)
	f.slots[n] = s
	return s
}

func (l *lex) ws() {
	for l.p < len(l.s) && (l.s[l.p] == ' ' || l.s[l.p] == '\t' || l.s[l.p] == '\n') {
		l.p++
	}
}

func isIdent(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '-'
}

// tok returns the next token.
func (l *lex) tok() string {
	l.ws()
	if l.p >= len(l.s) {
		return ""
	}
	st := l.p
	c := l.s[l.p]
	switch {
	case c == '%' || c == '@' || c == '#' || c == '!' || c == 'c' && l.p+1 < len(l.s) && l.s[l.p+1] == '"':
		l.p++
		if l.p < len(l.s) && l.s[l.p] == '"' {
			l.p++
			for l.p < len(l.s) && l.s[l.p] != '"' {
				l.p++
			}
			l.p++
			return l.s[st:l.p]
		}
		for l.p < len(l.s) && isIdent(l.s[l.p]) {
			l.p++
		}
		return l.s[st:l.p]
	case c == '"':
		l.p++
		for l.p < len(l.s) && l.s[l.p] != '"' {
			l.p++
		}
		l.p++
		return l.s[st:l.p]
	case isIdent(c) || c == '-' || c == '+':
		for l.p < len(l.s) && (isIdent(l.s[l.p]) || l.s[l.p] == '+') {
			l.p++
		}
		return l.s[st:l.p]
	case strings.HasPrefix(l.s[l.p:], "..."):
		l.p += 3
		return "..."
	}
	l.p++
	return l.s[st:l.p]
}

func (l *lex) peek() string {
	p := l.p
	t := l.tok()
	l.p = p
	return t
}

func (l *lex) accept(t string) bool {
	p := l.p
	if l.tok() == t {
		return true
	}
	l.p = p
	return false
}

func (l *lex) expect(t string) {
	if g := l.tok(); g != t {
		l.fail("expected %q, got %q", t, g)
	}
}

type parseErr struct{ msg string }

func (l *lex) fail(f string, a ...any) {
	s := l.s
	if len(s) > 300 {
		s = s[:300]
	}
	panic(parseErr{fmt.Sprintf(f, a...) + " in: " + s})
}

var (
	tPtr  = &Type{K: 'p'}
	tF    = &Type{K: 'f'}
	tD    = &Type{K: 'd'}
	tVoid = &Type{K: 'v'}
	ints  [129]*Type
)

func init() {
	for i := range ints {
		ints[i] = &Type{K: 'i', W: i}
		ints[i].layout()
	}
	tPtr.layout()
	tF.layout()
	tD.layout()
	tVoid.layout()
}

func unq(s string) string {
	if len(s) > 1 && s[1] == '"' {
		return s[:1] + s[2:len(s)-1]
	}
	return s
}

func (l *lex) typ() *Type {
	t := l.tok()
	switch {
	case t == "ptr":
		return tPtr
	case t == "void":
		return tVoid
	case t == "float":
		return tF
	case t == "double":
		return tD
	case t == "label" || t == "metadata" || t == "token":
		return tVoid
	case t == "[" || t == "<":
		if t == "<" && l.peek() == "{" {
			l.tok()
			s := l.structBody()
			s.Packed = true
			l.expect(">")
			return s
		}
		n := atoi(l.tok())
		l.expect("x")
		el := l.typ()
		if t == "[" {
			l.expect("]")
			return &Type{K: 'a', N: n, El: el}
		}
		l.expect(">")
		return &Type{K: 'V', N: n, El: el}
	case t == "{":
		return l.structBody()
	case strings.HasPrefix(t, "%"):
		n := unq(t)
		if x := l.m.Types[n]; x != nil {
			return x
		}
		l.fail("unknown type %s", n)
	case len(t) > 1 && t[0] == 'i' && t[1] >= '0' && t[1] <= '9':
		w := atoi(t[1:])
		if w <= 128 {
			return ints[w]
		}
	case t == "x86_fp80":
		return &Type{K: 'x'}
	}
	l.fail("type %q", t)
	return nil
}

func (l *lex) structBody() *Type {
	s := &Type{K: 's'}
	if l.accept("}") {
		return s
	}
	for {
		s.Fields = append(s.Fields, l.typ())
		if l.accept("}") {
			return s
		}
		l.expect(",")
	}
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

// attrs skips parameter / return attributes.
func (l *lex) attrs() (byval *Type) {
	for {
		p := l.p
		t := l.tok()
		switch t {
		case "noundef", "signext", "zeroext", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "immarg", "returned", "inreg", "nofree", "nest",
			"dso_local", "internal", "linkonce_odr", "private", "hidden", "weak_odr", "weak", "external", "unnamed_addr", "local_unnamed_addr", "available_externally", "protected", "fastcc", "ccc", "tail", "notail", "musttail", "nsz", "comdat", "swiftself", "allocptr", "noext", "initializes", "dead_on_unwind", "writable", "captures":
			if l.peek() == "(" && (t == "comdat" || t == "initializes" || t == "captures") {
				l.skipParen()
			}
			continue
		case "align":
			if l.accept("(") {
				l.tok()
				l.expect(")")
			} else {
				l.tok()
			}
			continue
		case "dereferenceable", "dereferenceable_or_null", "allocalign", "allocsize", "elementtype", "range", "nofpclass", "memory":
			l.skipParen()
			continue
		case "byval", "sret", "preallocated", "inalloca", "byref":
			l.expect("(")
			ty := l.typ()
			l.expect(")")
			if t == "byval" {
				byval = ty
			}
			continue
		}
		l.p = p
		return
	}
}

func (l *lex) skipParen() {
	l.expect("(")
	d := 1
	for d > 0 {
		switch l.tok() {
		case "(":
			d++
		case ")":
			d--
		case "":
			l.fail("paren")
		}
	}
}

// val parses an operand of type t.
func (l *lex) val(t *Type) *Opnd {
	x := l.tok()
	o := &Opnd{T: t}
	switch {
	case x == "":
		l.fail("value")
	case x[0] == '%':
		o.K, o.Name = 'l', unq(x)
		if l.f != nil {
			o.slot = l.f.slot(o.Name)
		}
	case x[0] == '@':
		o.K, o.Name = 'g', unq(x)[1:]
	case x == "null":
		o.K = 'n'
	case x == "undef" || x == "poison":
		o.K = 'u'
	case x == "zeroinitializer":
		o.K = 'z'
	case x == "true":
		o.K, o.V = 'c', 1
	case x == "false" || x == "none":
		o.K = 'c'
	case x == "[" || x == "{" || x == "<":
		o.K = 'A'
		end := map[string]string{"[": "]", "{": "}", "<": ">"}[x]
		if x == "<" && l.accept("{") {
			end = "}>"
		}
		stop := func() bool {
			if end == "}>" {
				if l.accept("}") {
					l.expect(">")
					return true
				}
				return false
			}
			return l.accept(end)
		}
		if stop() {
			return o
		}
		for {
			et := l.typ()
			o.L = append(o.L, l.val(et))
			if stop() {
				return o
			}
			l.expect(",")
		}
	case x[0] == 'c' && len(x) > 1 && x[1] == '"':
		o.K, o.Name = 'S', unescape(x[2:len(x)-1])
	case x == "getelementptr" || x == "ptrtoint" || x == "inttoptr" || x == "bitcast" || x == "add" || x == "sub" || x == "trunc":
		o.K, o.Op = 'E', x
		for l.peek() != "(" {
			l.tok()
		}
		l.expect("(")
		if x == "getelementptr" {
			o.ETy = l.typ()
			l.expect(",")
		}
		for {
			l.accept("inrange")
			et := l.typ()
			o.L = append(o.L, l.val(et))
			if l.accept("to") {
				o.ETy = l.typ()
			}
			if l.accept(")") {
				break
			}
			l.expect(",")
		}
	case (t.K == 'f' || t.K == 'd'):
		o.K = 'F'
		o.V = floatBits(l, t, x)
	case x[0] == '-' || x[0] >= '0' && x[0] <= '9':
		o.K = 'c'
		s := x
		if s[0] == '-' {
			o.Neg = true
			s = s[1:]
		}
		var v uint64
		for _, c := range s {
			v = v*10 + uint64(c-'0')
		}
		if o.Neg {
			v = -v
		}
		o.V = v
	default:
		l.fail("operand %q", x)
	}
	return o
}

func unescape(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+2 < len(s) {
			var v int
			fmt.Sscanf(s[i+1:i+3], "%02X", &v)
			sb.WriteByte(byte(v))
			i += 2
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// Parse reads a .ll file.
func Parse(file string) (m *Module, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s: %s", file, pe.msg)
				return
			}
			panic(r)
		}
	}()
	m = &Module{Types: map[string]*Type{}, Funcs: map[string]*Func{}, Globals: map[string]*Global{}, Alias: map[string]string{}}
	lines := strings.Split(string(b), "\n")
	// named types first (they may be mutually referring)
	for _, ln := range lines {
		if strings.HasPrefix(ln, "%") && strings.Contains(ln, " = type ") {
			l := &lex{s: ln, m: m}
			m.Types[unq(l.tok())] = &Type{K: 's'}
		}
	}
	for _, ln := range lines {
		if strings.HasPrefix(ln, "%") && strings.Contains(ln, " = type ") {
			l := &lex{s: ln, m: m}
			n := unq(l.tok())
			l.expect("=")
			l.expect("type")
			if l.peek() == "opaque" {
				continue
			}
			t := l.typ()
			d := m.Types[n]
			d.K, d.W, d.N, d.El, d.Fields, d.Packed = t.K, t.W, t.N, t.El, t.Fields, t.Packed
		}
	}
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		switch {
		case strings.HasPrefix(ln, "define "):
			f := &Func{mod: m, first: ln}
			l := &lex{s: ln, m: m}
			l.tok()
			l.fnHeader(f)
			for i++; lines[i] != "}"; i++ {
				f.body = append(f.body, lines[i])
			}
			m.Funcs[f.Name] = f
		case strings.HasPrefix(ln, "@"):
			l := &lex{s: ln, m: m}
			n := unq(l.tok())[1:]
			l.expect("=")
			g := &Global{Name: n}
			skip := false
			for {
				t := l.tok()
				if t == "global" || t == "constant" {
					g.Const = t == "constant"
					break
				}
				if t == "alias" {
					l.typ()
					l.expect(",")
					l.typ()
					m.Alias[n] = unq(l.tok())[1:]
					skip = true
					break
				}
				if t == "" || t == "ifunc" {
					skip = true
					break
				}
				if t == "(" { // thread_local(...)
					l.tok()
					l.expect(")")
				}
			}
			if skip {
				continue
			}
			g.T = l.typ()
			if p := l.peek(); p != "" && p != "," && p != "comdat" && p != "section" {
				g.Init = l.val(g.T)
			}
			m.Globals[n] = g
		}
	}
	return m, nil
}

func (l *lex) fnHeader(f *Func) {
	l.attrs()
	f.ret = l.typ()
	l.attrs()
	f.Name = unq(l.tok())[1:]
	l.expect("(")
	if l.accept(")") {
		return
	}
	for {
		if l.accept("...") {
			l.expect(")")
			return
		}
		t := l.typ()
		l.attrs()
		n := ""
		if p := l.peek(); strings.HasPrefix(p, "%") {
			n = unq(l.tok())
		}
		f.ptys = append(f.ptys, t)
		f.params = append(f.params, n)
		if l.accept(")") {
			return
		}
		l.expect(",")
	}
}
