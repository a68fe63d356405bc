package codec

import (
	"bufio"
	"bytes"
	"embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
	"vsym/goi"
	"vsym/sym"
)

//go:embed all:_harness
var harnessSrc embed.FS

// Harness is a Go package that drives the repository's own packages; it is
// executed symbolically together with them and natively for replay.
type Harness struct {
	Dir   string
	Name  string
	pr    *goi.Program
	pkg   *ssa.Package
	trees treeCache
	// Init selects the packages whose initialisers are executed.
	Init func(path string) bool
	// Stub replaces functions on a session.
	Stub func(in *goi.Interp)
}

// HArg is an argument of a harness function: Int (64 bit), Bool, or bytes of a string.
type HArg struct {
	T     *sym.Term
	B     []*sym.Term
	Bytes bool // []byte rather than string
}

// HInt, HStr and HBool build arguments.
func HInt(t *sym.Term) HArg   { return HArg{T: t} }
func HStr(b []*sym.Term) HArg { return HArg{B: append([]*sym.Term{}, b...)} }
func HText(p *sym.Path, s string) HArg {
	b := []*sym.Term{}
	for i := 0; i < len(s); i++ {
		b = append(b, p.BV(8, uint64(s[i])))
	}
	return HArg{B: b}
}

// NewHarness writes, loads and binds the harness files of a property.
func NewHarness(e *Env, names ...string) (*Job, *Harness, error) {
	d := filepath.Join(e.Scratch, "harness_"+names[0])
	if err := os.MkdirAll(d, 0o755); err != nil {
		return nil, nil, err
	}
	mod, err := os.ReadFile(filepath.Join(e.Repo, "go.mod"))
	if err != nil {
		return nil, nil, err
	}
	text := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(mod), "module h")
	text += "\nrequire github.com/xaxys/bubbler v0.0.0\nreplace github.com/xaxys/bubbler => " + e.Repo + "\n"
	if err := os.WriteFile(filepath.Join(d, "go.mod"), []byte(text), 0o644); err != nil {
		return nil, nil, err
	}
	if sum, err := os.ReadFile(filepath.Join(e.Repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(d, "go.sum"), sum, 0o644)
	}
	var fns []string
	for _, n := range append([]string{"common"}, names...) {
		b, err := harnessSrc.ReadFile("_harness/" + n + ".go")
		if err != nil {
			return nil, nil, err
		}
		for _, m := range regexp.MustCompile(`(?m)^func (H[A-Za-z0-9_]*)\(`).FindAllSubmatch(b, -1) {
			fns = append(fns, string(m[1]))
		}
		if err := os.WriteFile(filepath.Join(d, n+".go"), b, 0o644); err != nil {
			return nil, nil, err
		}
	}
	var tab strings.Builder
	for _, f := range fns {
		fmt.Fprintf(&tab, "\t%q: %s,\n", f, f)
	}
	if err := os.WriteFile(filepath.Join(d, "main.go"), []byte(strings.Replace(harnessMain, "//TABLE", tab.String(), 1)), 0o644); err != nil {
		return nil, nil, err
	}
	h := &Harness{Dir: d, Name: names[0]}
	pr, err := goi.Load(d, []string{"GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GOFLAGS=-mod=mod"}, ".")
	if err != nil {
		return nil, nil, fmt.Errorf("the harness does not build against the repository: %v", err)
	}
	h.pr = pr
	h.pkg = pr.Pkgs["h"]
	if h.pkg == nil {
		return nil, nil, fmt.Errorf("harness package not found")
	}
	pr.InitFor = func(path string) bool {
		return path == "h" || strings.HasPrefix(path, "github.com/xaxys/bubbler") || h.Init != nil && h.Init(path)
	}
	j := &Job{ID: names[0], Target: "harness", Dir: d, Prog: h}
	return j, h, nil
}

// Program gives the loaded program.
func (h *Harness) Program() *goi.Program { return h.pr }

type hSession struct {
	Session
	h  *Harness
	in *goi.Interp
	p  *sym.Path
}

func (h *Harness) Session(p *sym.Path) Session {
	in := goi.New(h.pr, p)
	in.Trace = os.Getenv("VSYM_TRACE") != ""
	in.SetStub("h.Assume", func(in *goi.Interp, a []goi.Value) goi.Value {
		p.Assume(a[0].(*sym.Term))
		return goi.Tuple(nil)
	})
	in.SetStub("h.Chars", func(in *goi.Interp, a []goi.Value) goi.Value {
		b := in.StrBytes(a[0].(*goi.Str))
		for i, c := range b {
			cl := a[2].(*goi.Str).S
			if i == 0 {
				cl = a[1].(*goi.Str).S
			}
			ok := p.False()
			for k := 0; k < len(cl); k++ {
				lo, hi := cl[k], cl[k]
				if k+2 < len(cl) && cl[k+1] == '-' {
					hi = cl[k+2]
					k += 2
				}
				ok = p.Or(ok, p.And(p.Ule(p.BV(8, uint64(lo)), c), p.Ule(c, p.BV(8, uint64(hi)))))
			}
			p.Assume(ok)
		}
		return goi.Tuple(nil)
	})
	if h.Stub != nil {
		h.Stub(in)
	}
	return &hSession{h: h, in: in, p: p}
}

func (s *hSession) Funcs() map[string]int {
	m := map[string]int{}
	for f, n := range s.in.Called {
		if strings.Contains(f, "xaxys/bubbler") {
			m[f] = n
		}
	}
	return m
}

// Call runs a harness function: Res.Exc is a panic, fail the violated clause.
func (r *Rec) Call(fn string, args ...HArg) (fail string) {
	s := r.S.(*hSession)
	op := r.add(&Op{Kind: "call", Fn: fn, HArgs: args})
	f := s.h.pkg.Func(fn)
	if f == nil {
		panic("no harness function " + fn)
	}
	var as []goi.Value
	for _, a := range args {
		switch {
		case a.T != nil:
			as = append(as, a.T)
		case a.Bytes:
			b := make(goi.Slice, len(a.B))
			for i := range b {
				b[i] = a.B[i]
			}
			as = append(as, b)
		default:
			as = append(as, s.in.SymStr(a.B))
		}
	}
	gp := s.in.Catch(func() {
		t := s.in.Call(f, as).(goi.Tuple)
		fs := t[0].(*goi.Str)
		if !fs.Concrete() {
			sym.Unsupported("harness verdict is not concrete")
		}
		op.Fail = fs.S
		op.Res.Buf = s.in.StrBytes(t[1].(*goi.Str))
	})
	if gp != nil {
		op.Res.Exc = "panic: " + gp.RT
		if os.Getenv("VSYM_SPEC") != "" {
			fmt.Fprintln(os.Stderr, "panic in the harness:", gp.RT)
		}
		return op.Res.Exc
	}
	return op.Fail
}

func (o *Op) hArgs() []map[string]any {
	l := []map[string]any{}
	for _, a := range o.HArgs {
		switch {
		case a.T != nil && a.T.W == 0:
			l = append(l, map[string]any{"k": "bool", "v": fmt.Sprint(a.T.V)})
		case a.T != nil:
			l = append(l, map[string]any{"k": "int", "v": a.T.SBig().String()})
		case a.Bytes:
			l = append(l, map[string]any{"k": "bytes", "v": hex.EncodeToString(Bytes(a.B))})
		default:
			l = append(l, map[string]any{"k": "str", "v": hex.EncodeToString(Bytes(a.B))})
		}
	}
	return l
}

func replayHarness(e *Env, ops []*Op) ([][]string, error) {
	by := map[string][]int{}
	for i, o := range ops {
		by[o.Job.Dir] = append(by[o.Job.Dir], i)
	}
	out := make([][]string, len(ops))
	for d, idx := range by {
		var in bytes.Buffer
		w := bufio.NewWriter(&in)
		for _, i := range idx {
			b, _ := json.Marshal(map[string]any{"fn": ops[i].Fn, "args": ops[i].hArgs()})
			w.Write(append(b, '\n'))
		}
		w.Flush()
		cmd := exec.Command("go", "run", ".")
		cmd.Dir = d
		cmd.Stdin = &in
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off", "GOPROXY=off", "GONOSUMDB=*")
		var se bytes.Buffer
		cmd.Stderr = &se
		b, err := cmd.Output()
		if err != nil {
			return nil, fmt.Errorf("harness driver: %v\n%s", err, trunc(se.String(), 2000))
		}
		for k, l := range SplitOutput(string(b), len(idx)) {
			out[idx[k]] = l
		}
	}
	return out, nil
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func init() { Backends["harness"] = Backend{Replay: replayHarness} }

const harnessMain = `package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
)

var table = map[string]any{
//TABLE
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for n := 0; sc.Scan(); n++ {
		var op struct {
			Fn   string
			Args []struct{ K, V string }
		}
		if err := json.Unmarshal(sc.Bytes(), &op); err != nil {
			panic(err)
		}
		fmt.Printf("#%d\n", n)
		run(op.Fn, op.Args)
	}
}

func run(fn string, args []struct{ K, V string }) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("exc")
			fmt.Fprintln(os.Stderr, r)
		}
	}()
	var as []reflect.Value
	for _, a := range args {
		switch a.K {
		case "int":
			v, err := strconv.ParseInt(a.V, 10, 64)
			if err != nil {
				panic(err)
			}
			as = append(as, reflect.ValueOf(int(v)))
		case "bool":
			as = append(as, reflect.ValueOf(a.V == "1"))
		case "str":
			b, _ := hex.DecodeString(a.V)
			as = append(as, reflect.ValueOf(string(b)))
		default:
			b, _ := hex.DecodeString(a.V)
			as = append(as, reflect.ValueOf(b))
		}
	}
	r := reflect.ValueOf(table[fn]).Call(as)
	fmt.Printf("fail=%s obs=%x\n", r[0].String(), r[1].String())
}
`
