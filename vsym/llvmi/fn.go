package llvmi

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

func floatBits(l *lex, t *Type, x string) uint64 {
	if strings.HasPrefix(x, "0x") {
		v, err := strconv.ParseUint(x[2:], 16, 64)
		if err != nil {
			l.fail("float %q", x)
		}
		if t.K == 'f' {
			return uint64(math.Float32bits(float32(math.Float64frombits(v))))
		}
		return v
	}
	f, err := strconv.ParseFloat(x, 64)
	if err != nil {
		l.fail("float %q", x)
	}
	if t.K == 'f' {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// load parses the body of a function.
func (f *Func) load() error {
	f.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(parseErr); ok {
					f.err = fmt.Errorf("%s: %s", f.Name, pe.msg)
					return
				}
				panic(r)
			}
		}()
		f.parse()
	})
	return f.err
}

func (f *Func) parse() {
	fp := &fparse{slots: map[string]int{}}
	next := 0
	for i, p := range f.params {
		if p == "" {
			p = fmt.Sprintf("%%%d", next)
			next++
			f.params[i] = p
		} else if isNum(p[1:]) {
			next = atoi(p[1:]) + 1
		}
		f.pslots = append(f.pslots, fp.slot(p))
	}
	f.blocks = map[string]*block{}
	var cur *block
	// join continuation lines
	var lines []string
	insw := false
	for _, ln := range f.body {
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		if insw || strings.HasPrefix(t, "to label") || strings.HasPrefix(t, "catch ") || t == "cleanup" || strings.HasPrefix(t, "filter ") {
			lines[len(lines)-1] += " " + t
			if insw && strings.HasPrefix(t, "]") {
				insw = false
			}
			continue
		}
		lines = append(lines, ln)
		if strings.HasPrefix(t, "switch ") && strings.HasSuffix(t, "[") {
			insw = true
		}
	}
	for _, ln := range lines {
		if ln[0] != ' ' && ln[0] != '\t' {
			// label
			n := ln
			if i := strings.Index(n, ":"); i >= 0 {
				n = n[:i]
			}
			n = strings.Trim(n, `"`)
			cur = &block{name: n}
			f.blocks[n] = cur
			if f.entry == nil {
				f.entry = cur
			}
			continue
		}
		if cur == nil {
			cur = &block{name: strconv.Itoa(next)}
			f.blocks[cur.name] = cur
			f.entry = cur
		}
		cur.ins = append(cur.ins, f.instr(fp, strings.TrimSpace(ln)))
	}
	f.nslots = len(fp.slots)
}

func isNum(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

func (f *Func) instr(fp *fparse, s string) *instr {
	l := &lex{s: s, m: f.mod, f: fp}
	in := &instr{dst: -1, text: s}
	t := l.tok()
	if t[0] == '%' {
		in.dst = fp.slot(unq(t))
		l.expect("=")
		t = l.tok()
	}
	if t == "tail" || t == "notail" || t == "musttail" {
		t = l.tok()
	}
	in.op = t
	tv := func() *Opnd { ty := l.typ(); l.attrs(); return l.val(ty) }
	label := func() string {
		l.expect("label")
		return strings.Trim(unq(l.tok())[1:], `"`)
	}
	flags := func(names ...string) {
		for {
			p := l.peek()
			ok := false
			for _, n := range names {
				if p == n {
					ok = true
				}
			}
			if !ok {
				return
			}
			in.flags += " " + l.tok()
		}
	}
	switch t {
	case "alloca":
		l.accept("inalloca")
		in.ty = l.typ()
		if l.accept(",") && l.peek() != "align" {
			in.a = append(in.a, tv())
		}
	case "load":
		l.accept("atomic")
		l.accept("volatile")
		in.ty = l.typ()
		l.expect(",")
		in.a = []*Opnd{tv()}
	case "store":
		l.accept("atomic")
		l.accept("volatile")
		a := tv()
		l.expect(",")
		in.a = []*Opnd{a, tv()}
	case "getelementptr":
		flags("inbounds", "nuw", "nusw")
		in.ty = l.typ()
		for l.accept(",") {
			in.a = append(in.a, tv())
		}
	case "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem":
		flags("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc")
		in.ty = l.typ()
		a := l.val(in.ty)
		l.expect(",")
		in.a = []*Opnd{a, l.val(in.ty)}
	case "fneg", "freeze":
		flags("fast", "nnan", "ninf", "nsz")
		in.ty = l.typ()
		in.a = []*Opnd{l.val(in.ty)}
	case "icmp", "fcmp":
		flags("fast", "nnan", "ninf", "nsz", "samesign")
		in.pred = l.tok()
		in.ty = l.typ()
		a := l.val(in.ty)
		l.expect(",")
		in.a = []*Opnd{a, l.val(in.ty)}
	case "zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "addrspacecast":
		flags("nneg", "nuw", "nsw")
		in.ty2 = l.typ()
		in.a = []*Opnd{l.val(in.ty2)}
		l.expect("to")
		in.ty = l.typ()
	case "phi":
		flags("fast")
		in.ty = l.typ()
		for {
			l.expect("[")
			in.a = append(in.a, l.val(in.ty))
			l.expect(",")
			in.lab = append(in.lab, strings.Trim(unq(l.tok())[1:], `"`))
			l.expect("]")
			if !l.accept(",") {
				break
			}
		}
	case "select":
		flags("fast")
		in.a = append(in.a, tv())
		l.expect(",")
		in.a = append(in.a, tv())
		l.expect(",")
		in.a = append(in.a, tv())
		in.ty = in.a[1].T
	case "br":
		if l.peek() == "label" {
			in.lab = []string{label()}
			break
		}
		in.a = []*Opnd{tv()}
		l.expect(",")
		a := label()
		l.expect(",")
		in.lab = []string{a, label()}
	case "switch":
		in.a = []*Opnd{tv()}
		l.expect(",")
		in.lab = []string{label()}
		l.expect("[")
		for !l.accept("]") {
			in.cases = append(in.cases, tv())
			l.expect(",")
			in.lab = append(in.lab, label())
		}
	case "ret":
		in.ty = l.typ()
		if in.ty.K != 'v' {
			in.a = []*Opnd{l.val(in.ty)}
		}
	case "unreachable", "fence", "landingpad", "resume":
	case "call", "invoke":
		flags("fast", "nnan", "ninf", "nsz")
		l.attrs()
		in.ty = l.typ()
		l.attrs()
		if l.peek() == "(" { // function type given
			l.skipParen()
			l.accept("*")
		}
		if l.peek() == "asm" {
			in.op = "asm"
			return in
		}
		in.a = append(in.a, l.val(tPtr))
		l.expect("(")
		for !l.accept(")") {
			ty := l.typ()
			if ty.K == 'v' { // metadata argument
				for l.peek() != ")" && l.peek() != "," {
					l.tok()
				}
				in.a = append(in.a, &Opnd{K: 'u', T: tVoid})
				in.byval = append(in.byval, nil)
				l.accept(",")
				continue
			}
			bv := l.attrs()
			in.byval = append(in.byval, bv)
			in.a = append(in.a, l.val(ty))
			l.accept(",")
		}
		if t == "invoke" {
			for !l.accept("to") {
				if l.tok() == "" {
					l.fail("invoke")
				}
			}
			a := label()
			l.expect("unwind")
			in.lab = []string{a, label()}
		}
	case "extractvalue":
		in.a = []*Opnd{tv()}
		for l.accept(",") {
			in.idx = append(in.idx, atoi(l.tok()))
		}
	case "insertvalue":
		a := tv()
		l.expect(",")
		in.a = []*Opnd{a, tv()}
		for l.accept(",") {
			in.idx = append(in.idx, atoi(l.tok()))
		}
		in.ty = a.T
	case "atomicrmw":
		l.accept("volatile")
		in.pred = l.tok()
		a := tv()
		l.expect(",")
		in.a = []*Opnd{a, tv()}
	case "cmpxchg":
		l.accept("weak")
		l.accept("volatile")
		a := tv()
		l.expect(",")
		b := tv()
		l.expect(",")
		in.a = []*Opnd{a, b, tv()}
	default:
		in.op = "unknown"
	}
	return in
}
