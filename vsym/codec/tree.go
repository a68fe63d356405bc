package codec

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"vsym/goi"
	"vsym/sym"
)

const (
	antlrPkg  = "github.com/antlr4-go/antlr/v4"
	parserPkg = "github.com/xaxys/bubbler/parser"
)

type treeTok struct {
	Ty, Line, Col int
	Text          string
}

type treeNode struct {
	T         string
	Tok, S, E *int
	L         map[string]int
	C         []*treeNode
}

type tree struct {
	Toks []treeTok
	Root *treeNode
}

type treeCache struct {
	mu  sync.Mutex
	bin string
	m   map[string]*tree
}

// native runs the harness binary on one call.
func (h *Harness) native(fn string, args ...string) (string, error) {
	h.trees.mu.Lock()
	if h.trees.bin == "" {
		bin := filepath.Join(h.Dir, "hbin")
		cmd := exec.Command("go", "build", "-o", bin, ".")
		cmd.Dir = h.Dir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off", "GOPROXY=off", "GONOSUMDB=*")
		if b, err := cmd.CombinedOutput(); err != nil {
			h.trees.mu.Unlock()
			return "", fmt.Errorf("harness: %v %s", err, trunc(string(b), 1000))
		}
		h.trees.bin = bin
	}
	h.trees.mu.Unlock()
	l := []map[string]any{}
	for _, a := range args {
		l = append(l, map[string]any{"k": "str", "v": hex.EncodeToString([]byte(a))})
	}
	in, _ := json.Marshal(map[string]any{"fn": fn, "args": l})
	cmd := exec.Command(h.trees.bin)
	cmd.Dir = h.Dir
	cmd.Stdin = bytes.NewReader(append(in, '\n'))
	out, err := cmd.Output()
	if err != nil {
		return "", err
	}
	ls := SplitOutput(string(out), 1)
	if len(ls[0]) != 1 || !strings.HasPrefix(ls[0][0], "fail= obs=") {
		return "", fmt.Errorf("%s: %s", fn, trunc(strings.Join(ls[0], " "), 300))
	}
	b, err := hex.DecodeString(strings.TrimPrefix(ls[0][0], "fail= obs="))
	return string(b), err
}

// Tree parses a text with the repository's parser.
func (h *Harness) Tree(text string) (*tree, error) {
	h.trees.mu.Lock()
	t := h.trees.m[text]
	h.trees.mu.Unlock()
	if t != nil {
		return t, nil
	}
	s, err := h.native("HTree", text)
	if err != nil {
		return nil, fmt.Errorf("%v\n%s", err, text)
	}
	t = &tree{}
	if err := json.Unmarshal([]byte(s), t); err != nil {
		return nil, err
	}
	h.trees.mu.Lock()
	if h.trees.m == nil {
		h.trees.m = map[string]*tree{}
	}
	h.trees.m[text] = t
	h.trees.mu.Unlock()
	return t, nil
}

// ParserStubs replaces the generated parser by the tree that the same parser,
// run natively, gives for the template of the text; texts are the templates
// with placeholder literals and words, which stand for symbolic values.
type ParserStubs struct {
	h     *Harness
	in    *goi.Interp
	words map[string]*goi.Str  // placeholder word -> text
	nums  map[string]*sym.Term // placeholder literal -> value
	files map[string]string    // path -> template with placeholders
	open  string               // content given to the lexer last
	nw    int
}

func (ps *ParserStubs) field(v goi.Value, t types.Type, name string) (*goi.Value, types.Type) {
	st := t.Underlying().(*types.Struct)
	s := v.(goi.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &s[i], st.Field(i).Type()
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if _, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				if p, t := ps.field(s[i], st.Field(i).Type(), name); p != nil {
					return p, t
				}
			}
		}
	}
	return nil, nil
}

func (ps *ParserStubs) set(o goi.Ptr, t types.Type, name string, v goi.Value) {
	p, _ := ps.field(*o, t, name)
	if p == nil {
		sym.Unsupported("no field %s in %s", name, t)
	}
	*p = v
}

func (ps *ParserStubs) typ(pkg, name string) types.Type {
	p := ps.h.pr.Pkgs[pkg]
	if p == nil || p.Type(name) == nil {
		sym.Unsupported("no type %s.%s", pkg, name)
	}
	return p.Type(name).Type()
}

func (ps *ParserStubs) obj(t types.Type) goi.Ptr {
	p := new(goi.Value)
	*p = ps.in.Zero(t)
	return p
}

// embedded allocates the structs embedded by pointer.
func (ps *ParserStubs) embedded(v goi.Value, t types.Type) {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if p, ok := f.Type().(*types.Pointer); ok && f.Embedded() {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				o := ps.obj(p.Elem())
				ps.embedded(*o, p.Elem())
				v.(goi.Struct)[i] = o
			}
		}
	}
}

// text gives the text of a token with the placeholder words filled in.
func (ps *ParserStubs) text(s string) *goi.Str {
	for w := range ps.words {
		if i := strings.Index(s, w); i >= 0 {
			var b []*sym.Term
			b = append(b, ps.in.StrBytes(ps.text(s[:i]))...)
			b = append(b, ps.in.StrBytes(ps.words[w])...)
			b = append(b, ps.in.StrBytes(ps.text(s[i+len(w):]))...)
			return ps.in.SymStr(b)
		}
	}
	return ps.in.Text(s)
}

func (ps *ParserStubs) build(t *tree) goi.Value {
	in := ps.in
	ct := ps.typ(antlrPkg, "CommonToken")
	toks := make([]goi.Iface, len(t.Toks))
	for i, k := range t.Toks {
		o := ps.obj(ct)
		ps.set(o, ct, "tokenType", in.P.SBV(64, int64(k.Ty)))
		ps.set(o, ct, "line", in.P.SBV(64, int64(k.Line)))
		ps.set(o, ct, "column", in.P.SBV(64, int64(k.Col)))
		ps.set(o, ct, "text", ps.text(k.Text))
		toks[i] = goi.Iface{T: types.NewPointer(ct), V: o}
	}
	var mk func(n *treeNode, parent goi.Iface) goi.Iface
	mk = func(n *treeNode, parent goi.Iface) goi.Iface {
		if n.Tok != nil {
			ty := ps.typ(antlrPkg, n.T)
			o := ps.obj(ty)
			ps.set(o, ty, "symbol", toks[*n.Tok])
			ps.set(o, ty, "parentCtx", parent)
			return goi.Iface{T: types.NewPointer(ty), V: o}
		}
		ty := ps.typ(parserPkg, n.T)
		o := ps.obj(ty)
		self := goi.Iface{T: types.NewPointer(ty), V: o}
		ps.set(o, ty, "parentCtx", parent)
		if n.S != nil {
			ps.set(o, ty, "start", toks[*n.S])
		}
		if n.E != nil {
			ps.set(o, ty, "stop", toks[*n.E])
		}
		for l, k := range n.L {
			ps.set(o, ty, l, toks[k])
		}
		var ch goi.Slice
		for _, c := range n.C {
			ch = append(ch, mk(c, self))
		}
		ps.set(o, ty, "children", ch)
		return self
	}
	return mk(t.Root, goi.Iface{}).V
}

// StubParser installs the stubs on a session.
func (h *Harness) StubParser(in *goi.Interp) {
	ps := &ParserStubs{h: h, in: in, words: map[string]*goi.Str{}, nums: map[string]*sym.Term{}, files: map[string]string{}}
	none := func(in *goi.Interp, a []goi.Value) goi.Value { return goi.Tuple(nil) }
	in.SetStub("h.subst", func(in *goi.Interp, a []goi.Value) goi.Value {
		text := a[0].(*goi.Str).S
		if ns, ok := a[1].(goi.Slice); ok {
			for i, v := range ns {
				ph := fmt.Sprintf("77%d0000%d", i, len(ps.nums))
				ps.nums[ph] = v.(*sym.Term)
				text = strings.ReplaceAll(text, fmt.Sprintf("$%d", i), ph)
			}
		}
		if ss, ok := a[2].(goi.Slice); ok {
			for i, v := range ss {
				key := fmt.Sprintf("@%d", i)
				if !strings.Contains(text, key) {
					continue
				}
				s := v.(*goi.Str)
				if s.Concrete() {
					text = strings.ReplaceAll(text, key, s.S)
					continue
				}
				// a placeholder token of the same kind; a prefix which makes
				// one token with the text belongs to it
				ph := fmt.Sprintf("zz_%d_zz", ps.nw)
				i := strings.Index(text, key)
				for _, w := range []string{"0x", "0X", "0", "= ", "-", "+"} {
					if strings.HasSuffix(text[:i], w) {
						ph = fmt.Sprintf("1%d1", ps.nw)
						break
					}
				}
				ps.nw++
				ps.words[ph] = s
				text = strings.ReplaceAll(text, key, ph)
			}
		}
		return in.Text(text)
	})
	in.SetStub("h.enter", func(in *goi.Interp, a []goi.Value) goi.Value {
		ns, ts := a[0].(goi.Slice), a[1].(goi.Slice)
		for i := range ns {
			ps.files["/w/"+ns[i].(*goi.Str).S] = ts[i].(*goi.Str).S
		}
		return &goi.NativeFn{F: none}
	})
	in.SetStub("os.Getwd", func(in *goi.Interp, a []goi.Value) goi.Value {
		return goi.Tuple{in.Text("/w"), goi.Iface{}}
	})
	find := func(s *goi.Str) (string, bool) {
		for _, f := range sortedKeys(ps.files) {
			if in.P.Branch(in.Eq(s, in.Text(f))) {
				return f, true
			}
		}
		return "", false
	}
	notFound := func() goi.Value {
		return in.NewError("file does not exist")
	}
	in.SetStub("os.Stat", func(in *goi.Interp, a []goi.Value) goi.Value {
		if _, ok := find(a[0].(*goi.Str)); !ok {
			return goi.Tuple{goi.Iface{}, notFound()}
		}
		return goi.Tuple{goi.Iface{}, goi.Iface{}}
	})
	in.SetStub("os.ReadFile", func(in *goi.Interp, a []goi.Value) goi.Value {
		f, ok := find(a[0].(*goi.Str))
		if !ok {
			return goi.Tuple{goi.Slice(nil), notFound()}
		}
		b := make(goi.Slice, len(ps.files[f]))
		for i := range b {
			b[i] = in.P.BV(8, uint64(ps.files[f][i]))
		}
		return goi.Tuple{b, goi.Iface{}}
	})
	in.SetStub("errors.As", func(in *goi.Interp, a []goi.Value) goi.Value { return in.P.False() })
	// the parser
	in.SetStub(antlrPkg+".NewInputStream", func(in *goi.Interp, a []goi.Value) goi.Value {
		s := a[0].(*goi.Str)
		if !s.Concrete() {
			sym.Unsupported("the parser is given a text that is not a template")
		}
		ps.open = s.S
		return goi.Ptr(nil)
	})
	in.SetStub(antlrPkg+".NewCommonTokenStream", func(in *goi.Interp, a []goi.Value) goi.Value { return goi.Ptr(nil) })
	for _, n := range []string{"Lexer", "Parser"} {
		ty := ps.typ(parserPkg, "bubbler"+n)
		in.SetStub(parserPkg+".Newbubbler"+n, func(in *goi.Interp, a []goi.Value) goi.Value {
			o := ps.obj(ty)
			ps.embedded(*o, ty)
			return o
		})
	}
	for _, m := range []string{"RemoveErrorListeners", "AddErrorListener"} {
		in.SetStub("(*"+antlrPkg+".BaseRecognizer)."+m, none)
	}
	in.SetStub("(*"+parserPkg+".bubblerParser).Proto", func(in *goi.Interp, a []goi.Value) goi.Value {
		t, err := h.Tree(ps.open)
		if err != nil {
			sym.Unsupported("template: %v", err)
		}
		v := ps.build(t)
		if f := h.pr.Pkgs[parserPkg].Prog.LookupMethod(types.NewPointer(ps.typ(parserPkg, "bubblerParser")), ps.typ(parserPkg, "bubblerParser").(*types.Named).Obj().Pkg(), "Proto"); f != nil {
			if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Interface); ok {
				return goi.Iface{T: types.NewPointer(ps.typ(parserPkg, t.Root.T)), V: v}
			}
		}
		return v
	})
	num := func(name string) {
		in.SetPre("strconv."+name, func(in *goi.Interp, a []goi.Value) (goi.Value, bool) {
			s := a[0].(*goi.Str)
			if !s.Concrete() {
				if name == "Atoi" {
					return nil, false
				}
				return parseDigits(in, s, a[1].(*sym.Term), a[2].(*sym.Term), name == "ParseInt")
			}
			t, ok := ps.nums[s.S]
			if !ok {
				return nil, false
			}
			return goi.Tuple{t, goi.Iface{}}, true
		})
	}
	num("ParseInt")
	num("ParseUint")
	num("Atoi")
}

// parseDigits models strconv.ParseInt and ParseUint on symbolic digits: base 0
// with a concrete prefix, 64 bits.
func parseDigits(in *goi.Interp, s *goi.Str, base, bits *sym.Term, signed bool) (goi.Value, bool) {
	p := in.P
	b := in.StrBytes(s)
	if !base.IsConst() || !bits.IsConst() || bits.V != 64 || len(b) == 0 {
		return nil, false
	}
	bs := base.V
	if bs == 0 {
		bs = 10
		if b[0].IsConst() && b[0].V == '0' {
			bs = 8
			b = b[1:]
			if len(b) > 1 && b[0].IsConst() && b[0].V|32 == 'x' {
				bs = 16
				b = b[1:]
			}
		} else if !p.Known(p.And(p.Ule(p.BV(8, '1'), b[0]), p.Ule(b[0], p.BV(8, '9')))).IsTrue() {
			return nil, false
		}
	}
	if bs != 8 && bs != 10 && bs != 16 || len(b) == 0 || len(b) > 22 {
		return nil, false
	}
	const w = 80
	v := p.BV(w, 0)
	for _, c := range b {
		rng := func(lo, hi byte) *sym.Term {
			return p.Known(p.And(p.Ule(p.BV(8, uint64(lo)), c), p.Ule(c, p.BV(8, uint64(hi)))))
		}
		ok := rng('0', byte('0'+min(bs, 10)-1))
		d := p.Sub(c, p.BV(8, '0'))
		if bs == 16 {
			ok = p.OrN(ok, rng('a', 'f'), rng('A', 'F'))
			d = p.Ite(rng('0', '9'), d, p.Add(p.And(p.Sub(c, p.BV(8, 'A')), p.BV(8, 31)), p.BV(8, 10)))
		}
		if !p.Branch(ok) {
			return nil, false
		}
		v = p.Add(p.Mul(v, p.BV(w, bs)), p.Zext(d, w))
	}
	top := 64
	if signed {
		top = 63
	}
	if !p.Branch(p.Ult(v, p.Shl(p.BV(w, 1), p.BV(w, uint64(top))))) {
		return goi.Tuple{p.BV(64, 1<<63-1), in.NewError("value out of range")}, true
	}
	return goi.Tuple{p.Extract(v, 63, 0), goi.Iface{}}, true
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
