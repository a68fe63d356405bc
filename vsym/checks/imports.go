package checks

import (
	"fmt"
	"path"
	"strings"

	"vsym/codec"
	"vsym/sym"
)

// ifile is one schema file: names and import targets are one-letter words.
type ifile struct {
	name string
	pkg  string // dotted segments; "?" is a symbolic letter
	imps []string
	defs string // kinds: s(truct) e(num) m(ember) n(ested struct); u(se of a type) t (as struct) f (as enum) c(onstant) v (enum value)
}

type iname struct {
	file, pos int
	kind      byte
	t         *sym.Term
}

type igraph struct {
	x     *X
	files []*ifile
	words []*sym.Term
	texts []string
	edge  [][]*sym.Term
	miss  []*sym.Term
	pkgs  [][]*sym.Term
	defs  []iname
	uses  []iname
}

func (g *igraph) word(set string) (string, *sym.Term) {
	x := g.x
	i := len(g.words)
	t := x.Var(fmt.Sprintf("w%d", i), 8)
	ok := x.False()
	if set == "" {
		in := func(a, b byte) *sym.Term { return x.And(x.Ule(x.BV(8, uint64(a)), t), x.Ule(t, x.BV(8, uint64(b)))) }
		ok = in('A', 'Z')
	}
	for _, c := range []byte(set) {
		ok = x.Or(ok, x.Eq(t, x.BV(8, uint64(c))))
	}
	x.Assume(ok)
	g.words = append(g.words, t)
	return fmt.Sprintf("@%d", i), t
}

// build makes the texts, and the relations the texts state.
func (g *igraph) build(letters string) {
	x := g.x
	n := len(g.files)
	uniq := 0
	fresh := func() string { uniq++; return fmt.Sprintf("Zq%d", uniq) }
	for fi, f := range g.files {
		var pk []*sym.Term
		txt := "package "
		for i, s := range strings.Split(f.pkg, ".") {
			if i > 0 {
				txt += "."
				pk = append(pk, x.BV(8, '.'))
			}
			if s == "?" {
				w, t := g.word("")
				txt += w
				pk = append(pk, t)
			} else {
				txt += s
				for _, c := range []byte(s) {
					pk = append(pk, x.BV(8, uint64(c)))
				}
			}
		}
		txt += ";\n"
		g.pkgs = append(g.pkgs, pk)
		row := make([]*sym.Term, n)
		for i := range row {
			row[i] = x.False()
		}
		miss := x.False()
		for _, im := range f.imps {
			var lt *sym.Term
			base := path.Base(im)
			lit := im
			if strings.HasPrefix(base, "?") {
				w, t := g.word(letters)
				lt = t
				lit = strings.Replace(im, "?", w, 1)
			} else {
				lt = x.BV(8, uint64(base[0]))
			}
			txt += fmt.Sprintf("import \"%s\";\n", lit)
			found := x.False()
			for gi, o := range g.files {
				if path.Dir(o.name) == path.Join(path.Dir(f.name), path.Dir(im)) {
					e := x.Eq(lt, x.BV(8, uint64(path.Base(o.name)[0])))
					row[gi] = x.Or(row[gi], e)
					found = x.Or(found, e)
				}
			}
			miss = x.Or(miss, x.Not(found))
		}
		g.edge = append(g.edge, row)
		g.miss = append(g.miss, miss)
		for pos, k := range []byte(f.defs) {
			w, t := g.word("")
			nm := iname{fi, pos, k, t}
			switch k {
			case 's':
				txt += fmt.Sprintf("struct %s { uint8 x; }\n", w)
			case 'e':
				txt += fmt.Sprintf("enum %s[1] { %s, }\n", w, fresh())
			case 'm':
				txt += fmt.Sprintf("enum %s[1] { %s, %s, }\n", fresh(), fresh(), w)
			case 'n':
				txt += fmt.Sprintf("struct %s { struct %s { uint8 x; } y; }\n", fresh(), w)
			case 'u':
				txt += fmt.Sprintf("struct %s { %s x; }\n", fresh(), w)
			case 't':
				txt += fmt.Sprintf("struct %s { struct %s x; }\n", fresh(), w)
			case 'f':
				txt += fmt.Sprintf("struct %s { enum %s x; }\n", fresh(), w)
			case 'c':
				txt += fmt.Sprintf("struct %s { uint8 x =%s; }\n", fresh(), w)
			case 'v':
				txt += fmt.Sprintf("enum %s[1] { %s =%s, }\n", fresh(), fresh(), w)
			}
			if strings.IndexByte("utfcv", k) >= 0 {
				g.uses = append(g.uses, nm)
			} else {
				g.defs = append(g.defs, nm)
			}
		}
		g.texts = append(g.texts, txt)
	}
}

func (g *igraph) check(j *codec.Job) {
	x, n := g.x, len(g.files)
	// the transitive closure, and the files reachable from the first
	tc := make([][]*sym.Term, n)
	for i := range tc {
		tc[i] = append([]*sym.Term{}, g.edge[i]...)
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for l := 0; l < n; l++ {
				tc[i][l] = x.Or(tc[i][l], x.And(tc[i][k], tc[k][l]))
			}
		}
	}
	reach := func(f int) *sym.Term {
		if f == 0 {
			return x.True()
		}
		return tc[0][f]
	}
	sees := func(f, o int) *sym.Term {
		if f == o {
			return x.True()
		}
		return tc[f][o]
	}
	miss, cyc, self, pdup, ndup, bad := x.False(), x.False(), x.False(), x.False(), x.False(), x.False()
	for f := 0; f < n; f++ {
		miss = x.Or(miss, x.And(reach(f), g.miss[f]))
		cyc = x.Or(cyc, x.And(reach(f), tc[f][f]))
		self = x.Or(self, x.And(reach(f), g.edge[f][f]))
		for o := 0; o < f; o++ {
			if len(g.pkgs[f]) == len(g.pkgs[o]) {
				eq := x.True()
				for i := range g.pkgs[f] {
					eq = x.And(eq, x.Eq(g.pkgs[f][i], g.pkgs[o][i]))
				}
				pdup = x.Or(pdup, x.AndN(reach(f), reach(o), eq))
			}
		}
	}
	dupName := func(t *sym.Term) *sym.Term { // a name (t, or any) defined twice
		d := x.False()
		for i, a := range g.defs {
			for _, b := range g.defs[:i] {
				c := x.AndN(reach(a.file), reach(b.file), x.Eq(a.t, b.t))
				if t != nil {
					c = x.And(c, x.Eq(a.t, t))
				}
				d = x.Or(d, c)
			}
		}
		return d
	}
	ndup = dupName(nil)
	badUse := func(t *sym.Term) *sym.Term { // a use (of t, or any) of what is not visible
		d := x.False()
		for _, u := range g.uses {
			ok := x.False()
			for _, a := range g.defs {
				good := map[byte]string{'u': "se", 't': "s", 'f': "e", 'c': "m", 'v': "m"}[u.kind]
				if strings.IndexByte(good, a.kind) >= 0 && (a.file != u.file || a.pos < u.pos) {
					ok = x.Or(ok, x.And(sees(u.file, a.file), x.Eq(a.t, u.t)))
				}
			}
			c := x.And(reach(u.file), x.Not(ok))
			if t != nil {
				c = x.And(c, x.Eq(u.t, t))
			}
			d = x.Or(d, c)
		}
		return d
	}
	bad = badUse(nil)
	valid := x.Not(x.OrN(miss, cyc, pdup, ndup, bad))

	var names []string
	for _, f := range g.files {
		names = append(names, f.name)
	}
	rec := x.Rec(j)
	if f := rec.Call("HImports", codec.HText(x.Path, strings.Join(names, "|")), codec.HText(x.Path, strings.Join(g.texts, "|")), codec.HStr(g.words)); f != "" {
		x.Check("compiling does not panic", x.False())
		return
	}
	obs := rec.Ops[len(rec.Ops)-1].Res.Buf
	is := func(t *sym.Term, c byte) bool { return t.IsConst() && t.V == uint64(c) }
	if is(obs[0], 'R') {
		x.Check("a graph without cycle, clash or missing file is accepted", x.Not(valid))
		saw := false
		at := func(t *sym.Term, p func(f int) *sym.Term) *sym.Term {
			d := x.False()
			for f := range g.files {
				d = x.Or(d, x.And(x.Eq(t, x.BV(8, uint64(path.Base(g.files[f].name)[0]))), p(f)))
			}
			return d
		}
		for i := 1; i < len(obs); i++ {
			switch {
			case is(obs[i], 'I'):
				saw = true
				x.Check("a self-import is reported only where there is one", self)
			case is(obs[i], 'C'):
				saw = true
				i++
				x.Check("a reported cycle exists", at(obs[i], func(f int) *sym.Term { return x.And(reach(f), tc[f][f]) }))
			case is(obs[i], 'M'):
				x.Check("a file reported missing is missing", miss)
			case is(obs[i], 'P'):
				x.Check("a package reported as claimed twice is", pdup)
			case is(obs[i], 'D'):
				i++
				x.Check("a name reported as defined twice is", dupName(obs[i]))
			case is(obs[i], 'N'):
				i++
				x.Check("a name reported as unknown is", badUse(obs[i]))
			default:
				x.Check("any other error is a use of a name of the wrong kind", bad)
			}
		}
		if !saw {
			x.Check("a cycle is reported", x.Not(x.And(cyc, x.Not(pdup))))
		}
		return
	}
	x.Check("an import cycle is rejected", x.Not(cyc))
	x.Check("a missing file is rejected", x.Not(miss))
	x.Check("two files of one package are rejected", x.Not(pdup))
	x.Check("two definitions of one name are rejected", x.Not(ndup))
	x.Check("a name that is not visible is rejected", x.Not(bad))
	order := obs[1 : len(obs)-2]
	x.Check("the compiled unit is the file asked for", x.Eq(obs[len(obs)-1], x.BV(8, uint64(path.Base(g.files[0].name)[0]))))
	for f, o := range g.files {
		c := x.BV(8, uint64(path.Base(o.name)[0]))
		cnt := x.BV(8, 0)
		for _, t := range order {
			cnt = x.Add(cnt, x.Ite(x.Eq(t, c), x.BV(8, 1), x.BV(8, 0)))
		}
		x.Check("each reachable file is compiled once, and no other", x.Eq(cnt, x.Ite(reach(f), x.BV(8, 1), x.BV(8, 0))))
		// what f imports comes before f
		for i, t := range order {
			late := x.False()
			for k := i + 1; k < len(order); k++ {
				for q, oq := range g.files {
					late = x.Or(late, x.And(g.edge[f][q], x.Eq(order[k], x.BV(8, uint64(path.Base(oq.name)[0])))))
				}
			}
			x.Check("a file is compiled before its users", x.Not(x.And(x.Eq(t, c), late)))
		}
	}
}

// runC19: import graphs, packages and names.
func runC19(r *Run) {
	j, h := r.Harness("parse")
	if j == nil {
		return
	}
	h.Stub = h.StubParser
	add := func(name, letters string, files ...*ifile) {
		r.Add(&Item{Name: name, Target: "harness", Traces: 3, MaxPaths: 20000, Run: func(x *X) {
			g := &igraph{x: x, files: files}
			g.build(letters)
			g.check(j)
		}})
	}
	F := func(name, pkg, imps, defs string) *ifile {
		return &ifile{name, pkg, strings.Fields(imps), defs}
	}
	// graphs: every edge symbolic
	add("graph/1", "ax", F("a.bb", "pa", "?.bb", ""))
	add("graph/2", "abx", F("a.bb", "pa", "?.bb ?.bb", ""), F("b.bb", "pb", "?.bb", ""))
	add("graph/3", "abcd", F("a.bb", "pa", "?.bb ?.bb", ""), F("b.bb", "pb", "?.bb", ""), F("c.bb", "pc", "?.bb", ""), F("d.bb", "pd", "", ""))
	add("graph/3-missing", "abcx", F("a.bb", "pa", "?.bb ?.bb", ""), F("b.bb", "pb", "?.bb", ""), F("c.bb", "pc", "?.bb", ""))
	add("graph/3-defs", "abc", F("a.bb", "pa", "?.bb ?.bb", "s"), F("b.bb", "pb", "?.bb", "s"), F("c.bb", "pc", "", "s"))
	add("graph/4", "abcd", F("a.bb", "pa", "b.bb ?.bb", ""), F("b.bb", "pb", "?.bb", ""), F("c.bb", "pc", "?.bb", ""), F("d.bb", "pd", "?.bb", ""))
	add("graph/forms", "abc", F("a.bb", "pa", "./?.bb x/../?.bb", ""), F("b.bb", "pb", "../?.bb ./?.bb", ""), F("c.bb", "pc", "", ""))
	add("graph/dirs", "abcd", F("a.bb", "pa", "s/?.bb ?.bb", ""), F("s/b.bb", "pb", "?.bb", ""), F("s/c.bb", "pc", "../?.bb", ""), F("d.bb", "pd", "s/?.bb", ""))
	add("graph/4-2", "abcd", F("a.bb", "pa", "?.bb ?.bb", ""), F("b.bb", "pb", "?.bb", ""), F("c.bb", "pc", "?.bb", ""), F("d.bb", "pd", "?.bb", ""))
	if !r.Quick() {
		add("graph/5", "abcde", F("a.bb", "pa", "b.bb ?.bb", ""), F("b.bb", "pb", "?.bb", ""), F("c.bb", "pc", "?.bb", ""), F("d.bb", "pd", "?.bb", ""), F("e.bb", "pe", "?.bb", ""))
		add("graph/4-3", "abcd", F("a.bb", "pa", "b.bb ?.bb", ""), F("b.bb", "pb", "?.bb ?.bb", ""), F("c.bb", "pc", "?.bb ?.bb", ""), F("d.bb", "pd", "?.bb", ""))
	}
	// packages
	shapes := map[string][]string{"chain": {"b.bb", "c.bb", ""}, "fork": {"b.bb c.bb", "", ""}, "diamond": {"b.bb c.bb", "c.bb", ""}, "diamond2": {"c.bb b.bb", "c.bb", ""}}
	order := []string{"chain", "fork", "diamond", "diamond2"}
	for _, s := range order {
		im := shapes[s]
		for _, p := range [][3]string{{"?", "?", "?"}, {"?.?", "?.?", "?"}, {"?.?", "?.?", "?.?"}, {"ab", "?.b", "a?"}} {
			if strings.Contains(p[2], "a?") {
				p[2] = "a.?"
			}
			add(fmt.Sprintf("package/%s/%s-%s-%s", s, p[0], p[1], p[2]), "", F("a.bb", p[0], im[0], ""), F("b.bb", p[1], im[1], ""), F("c.bb", p[2], im[2], ""))
		}
	}
	// names
	kinds := "semn"
	pick := func(i, of int) bool { return !r.Quick() || (i+int(r.Seed))%of == 0 }
	i := 0
	for _, a := range kinds {
		for _, b := range kinds {
			add(fmt.Sprintf("names/one/%c%c", a, b), "", F("a.bb", "pa", "", string([]rune{a, b})))
			for _, c := range kinds {
				for _, s := range order {
					i++
					if pick(i, 3) {
						im := shapes[s]
						add(fmt.Sprintf("names/%s/%c%c%c", s, a, b, c), "", F("a.bb", "pa", im[0], string(a)), F("b.bb", "pb", im[1], string(b)), F("c.bb", "pc", im[2], string(c)))
					}
				}
				if pick(i, 2) {
					add(fmt.Sprintf("names/three/%c%c%c", a, b, c), "", F("a.bb", "pa", "", string([]rune{a, b, c})))
				}
			}
		}
	}
	// fields of one struct, and of the structs embedded in it
	for _, shape := range []string{"ff", "fff", "fe", "ef", "ee", "fE", "ffe", "eff", "efe", "Ee", "ffff", "fW", "We", "fn", "fx", "nx"} {
		r.Add(&Item{Name: "fields/" + shape, Target: "harness", Traces: 3, MaxPaths: 20000, Run: func(x *X) { fieldNames(x, j, shape) }})
	}
	// uses
	for _, u := range "utfcv" {
		for _, d := range kinds {
			add(fmt.Sprintf("use/one/%c%c", d, u), "", F("a.bb", "pa", "", string([]rune{d, u, d})))
			for _, s := range order {
				im := shapes[s]
				add(fmt.Sprintf("use/%s/%c%c", s, d, u), "", F("a.bb", "pa", im[0], string(u)), F("b.bb", "pb", im[1], string(d)), F("c.bb", "pc", im[2], string(d)))
				add(fmt.Sprintf("use/%s/mid-%c%c", s, d, u), "", F("a.bb", "pa", im[0], string(d)), F("b.bb", "pb", im[1], string(u)), F("c.bb", "pc", im[2], string(d)))
			}
		}
	}
	// an error in one file does not invent errors elsewhere
	add("errors/stale", "abcd", F("a.bb", "pa", "b.bb c.bb", ""), F("b.bb", "pb", "x.bb", ""), F("c.bb", "pc", "?.bb", ""), F("d.bb", "pd", "", ""))
	add("errors/stale-dup", "bd", F("a.bb", "pa", "b.bb c.bb", ""), F("b.bb", "pb", "", "ss"), F("c.bb", "pc", "?.bb", ""), F("d.bb", "pd", "", "s"))
	r.Bounds = append(r.Bounds,
		"import graphs of up to 4 files and 5 imports, targets symbolic (including missing files, the importing file, directories and dotted paths)",
		"packages of one or two segments, and definitions of every kind (structs, enums, members, nested ones), each with a symbolic one-letter name, over chains, forks and diamonds of three files",
		"uses of a type, of an enum member in a constant and in an enum, by a symbolic name",
		"the file system is a table: the working directory is /w, a missing file is an error of no particular kind; ANTLR's parse tree of the template text is injected, so the parser itself is outside")
	r.Execute()
}

// fieldNames checks that the fields of a struct have names of their own: f is a
// field, n a field of a struct defined there, x a constant, e and E embedded
// structs of one and two fields, W one that embeds another.
func fieldNames(x *X, j *codec.Job, shape string) {
	g := &igraph{x: x}
	var scopes [][]*sym.Term
	text := ""
	var embed func(k byte, n int) (string, []*sym.Term)
	embed = func(k byte, n int) (string, []*sym.Term) {
		w, t := g.word("abcdefghij")
		ts := []*sym.Term{t}
		body := fmt.Sprintf("uint8 %s; ", w)
		if k == 'E' {
			w, t := g.word("abcdefghij")
			ts = append(ts, t)
			body += fmt.Sprintf("uint16 %s; ", w)
		}
		if k == 'W' {
			b, in := embed('e', n+50)
			body += b
			ts = append(ts, in...)
		}
		scopes = append(scopes, ts)
		return fmt.Sprintf("struct E%d { %s}; ", n, body), ts
	}
	var own []*sym.Term
	for i := range shape {
		switch k := shape[i]; k {
		case 'f', 'x', 'n':
			w, t := g.word("abcdefghij")
			own = append(own, t)
			text += map[byte]string{'f': "uint8 " + w + "; ", 'x': "uint8 " + w + " = 3; ", 'n': fmt.Sprintf("struct N%d { uint8 a; } %s; ", i, w)}[k]
		default:
			b, ts := embed(k, i)
			own = append(own, ts...)
			text += b
		}
	}
	scopes = append(scopes, own)
	dup := x.False()
	for _, s := range scopes {
		for i := range s {
			for k := 0; k < i; k++ {
				dup = x.Or(dup, x.Eq(s[i], s[k]))
			}
		}
	}
	rec := x.Rec(j)
	if f := rec.Call("HImports", codec.HText(x.Path, "a.bb"), codec.HText(x.Path, "package pa;\nstruct S { "+text+"}\n"), codec.HStr(g.words)); f != "" {
		x.Check("compiling does not panic", x.False())
		return
	}
	obs := rec.Ops[len(rec.Ops)-1].Res.Buf
	if obs[0].V == 'R' {
		x.Check("a struct with fields of different names is accepted", dup)
		return
	}
	x.Check("two fields of one name are rejected", x.Not(dup))
}
