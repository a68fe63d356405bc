package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/antlr4-go/antlr/v4"
	"github.com/xaxys/bubbler/compiler"
	"github.com/xaxys/bubbler/definition"
	"github.com/xaxys/bubbler/parser"
)

// HTree gives the syntax tree of a text (used natively only: the checker
// rebuilds it in the interpreted heap).
func HTree(text string) (string, string) {
	type token struct {
		Ty   int
		Text string
		Line int
		Col  int
	}
	type node struct {
		T   string
		Tok *int           `json:",omitempty"`
		S   *int           `json:",omitempty"`
		E   *int           `json:",omitempty"`
		L   map[string]int `json:",omitempty"`
		C   []*node        `json:",omitempty"`
	}
	var toks []token
	idx := map[antlr.Token]int{}
	tok := func(t antlr.Token) *int {
		if t == nil {
			return nil
		}
		i, ok := idx[t]
		if !ok {
			i = len(toks)
			idx[t] = i
			toks = append(toks, token{t.GetTokenType(), t.GetText(), t.GetLine(), t.GetColumn()})
		}
		return &i
	}
	var walk func(t antlr.Tree) *node
	walk = func(t antlr.Tree) *node {
		n := &node{T: reflect.TypeOf(t).Elem().Name()}
		if l, ok := t.(antlr.TerminalNode); ok {
			n.Tok = tok(l.GetSymbol())
			return n
		}
		c := t.(antlr.ParserRuleContext)
		n.S, n.E = tok(c.GetStart()), tok(c.GetStop())
		v := reflect.ValueOf(t)
		for i := 0; i < v.NumMethod(); i++ {
			m := v.Type().Method(i)
			if strings.HasPrefix(m.Name, "Get") && m.Name != "GetStart" && m.Name != "GetStop" && m.Type.NumIn() == 1 && m.Type.NumOut() == 1 && m.Type.Out(0) == reflect.TypeOf((*antlr.Token)(nil)).Elem() {
				if x, ok := v.Method(i).Call(nil)[0].Interface().(antlr.Token); ok && x != nil {
					if n.L == nil {
						n.L = map[string]int{}
					}
					n.L[strings.ToLower(m.Name[3:])] = *tok(x)
				}
			}
		}
		for _, k := range t.GetChildren() {
			n.C = append(n.C, walk(k))
		}
		return n
	}
	lx := parser.NewbubblerLexer(antlr.NewInputStream(text))
	ps := parser.NewbubblerParser(antlr.NewCommonTokenStream(lx, 0))
	l := &errs{}
	lx.RemoveErrorListeners()
	lx.AddErrorListener(l)
	ps.RemoveErrorListeners()
	ps.AddErrorListener(l)
	root := walk(ps.Proto())
	if l.n > 0 {
		return "the text does not parse", ""
	}
	b, err := json.Marshal(map[string]any{"toks": toks, "root": root})
	if err != nil {
		panic(err)
	}
	return "", string(b)
}

type errs struct {
	*antlr.DefaultErrorListener
	n int
}

func (l *errs) SyntaxError(_ antlr.Recognizer, _ any, line, col int, msg string, _ antlr.RecognitionException) {
	l.n++
}

// subst fills the numbers and strings into a template: $k and @k. The checker
// replaces it by the template with placeholders bound to the arguments.
func subst(text string, nums []int, strs []string) string {
	for i, n := range nums {
		text = strings.ReplaceAll(text, fmt.Sprintf("$%d", i), fmt.Sprint(n))
	}
	for i, s := range strs {
		text = strings.ReplaceAll(text, fmt.Sprintf("@%d", i), s)
	}
	return text
}

// enter makes a scratch directory with the files the working directory; the
// checker replaces it by a table of files.
func enter(names, texts []string) func() {
	d, err := os.MkdirTemp("", "hc-")
	if err != nil {
		panic(err)
	}
	old, _ := os.Getwd()
	os.Chdir(d)
	for i, n := range names {
		os.MkdirAll(filepath.Dir(n), 0o755)
		if err := os.WriteFile(n, []byte(texts[i]), 0o644); err != nil {
			panic(err)
		}
	}
	return func() {
		os.Chdir(old)
		os.RemoveAll(d)
	}
}

func put64(v int64) string {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return string(b)
}

// layout renders what the compiler resolved.
func layout(u *definition.CompilationUnit) string {
	s := ""
	for _, t := range u.LocalTypes.Values() {
		switch x := t.(type) {
		case *definition.Enum:
			s += "E" + put64(x.EnumBitSize)
			for _, v := range x.EnumValues.Values() {
				s += "v" + put64(v.EnumValue)
			}
		case *definition.Struct:
			s += "S" + put64(x.StructBitSize)
			if x.StructDynamic {
				s += "d"
			} else {
				s += "f"
			}
			for _, f := range x.StructFields.Values() {
				if _, ok := f.(*definition.EmbeddedField); ok {
					continue
				}
				s += "F" + put64(f.GetFieldBitSize())
				if c, ok := f.(*definition.ConstantField); ok {
					if l, ok := c.FieldConstant.(*definition.IntLiteral); ok {
						s += "c" + put64(l.IntValue)
					}
				}
			}
		}
	}
	return s
}

// HCompile compiles one file: the observable starts with A (accepted) or R.
func HCompile(text string, n0, n1, n2, n3, n4, n5, n6, n7 int) (string, string) {
	t := subst(text, []int{n0, n1, n2, n3, n4, n5, n6, n7}, nil)
	defer enter([]string{"a.bb"}, []string{t})()
	u, err, _ := compiler.NewCompilationRuntime().CompileFile("a.bb")
	if err != nil {
		return "", "R"
	}
	return "", "A" + layout(u)
}

// HCompileText is HCompile with a string to fill in.
func HCompileText(text, s0 string, n0, n1 int) (string, string) {
	t := subst(text, []int{n0, n1}, []string{s0})
	defer enter([]string{"a.bb"}, []string{t})()
	u, err, _ := compiler.NewCompilationRuntime().CompileFile("a.bb")
	if err != nil {
		return "", "R"
	}
	return "", "A" + layout(u)
}

// HImports compiles a.bb among the files (split by "|"), with one-letter words
// filled in. The observable is "A" and a letter for each compiled unit, or "R"
// and the kinds of the errors.
func HImports(names, texts, words string) (string, string) {
	var files, ws []string
	for i := range words {
		ws = append(ws, words[i:i+1])
	}
	for _, t := range strings.Split(texts, "|") {
		files = append(files, subst(t, nil, ws))
	}
	defer enter(strings.Split(names, "|"), files)()
	rt := compiler.NewCompilationRuntime()
	u, err, _ := rt.CompileFile("a.bb")
	if err != nil {
		return "", "R" + kinds(err)
	}
	s := "A"
	for _, k := range rt.Units.Keys() {
		s += k[len(k)-4 : len(k)-3]
	}
	p := u.UnitName.Path
	return "", s + ";" + p[len(p)-4:len(p)-3]
}

// kinds lists the errors: I(self import), Cf (cycle through f), P(ackage), Dn
// (duplicate name n), Nn (name n not found), M(issing file), ? (others).
func kinds(err error) string {
	switch e := err.(type) {
	case *definition.JoinTopLevelErrors:
		s := ""
		for _, x := range e.Errs {
			s += kinds(x)
		}
		return s
	case *definition.CompileError:
		return kinds(e.Err)
	case *definition.GeneralError:
		return kinds(e.Err)
	case *definition.ImportingError:
		return kinds(e.Err)
	case *definition.ImportSelfError:
		return "I"
	case *definition.ImportCycleError:
		p := e.File.Path
		return "C" + p[len(p)-4:len(p)-3]
	case *definition.FileNotFoundError:
		return "M"
	case *definition.PackageDuplicateError:
		return "P"
	case *definition.DefinitionDuplicateError:
		return "D" + e.DefName
	case *definition.DefinitionNotFoundError:
		return "N" + e.DefName
	}
	return "?"
}
