// Package codec binds generated code of each target to one interface that the
// checks drive symbolically, and replays concrete cases on the real code.
package codec

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"vsym/sym"
	"vsym/wire"
)

// Job is one schema compiled with one set of options for one target.
type Job struct {
	ID     string
	Unit   *wire.Unit
	Opts   []string
	Target string
	Base   string // package name before the suffix that tells option sets apart
	Dir    string // generated output directory
	Prog   Program
	Err    string
	Tag    string // which unroll/options setting, for reports
}

func (j *Job) Has(opt string) bool {
	for _, o := range j.Opts {
		if o == opt || strings.HasPrefix(o, opt+"=") {
			return true
		}
	}
	return false
}

// Program is loaded generated code.
type Program interface {
	Session(p *sym.Path) Session
}

type Obj any

// Res is the outcome of an operation of generated code.
type Res struct {
	Ret *sym.Term // 64-bit signed result
	Buf []*sym.Term
	Exc string // exception / panic / trap raised
}

// Session is generated code on one symbolic path.
type Session interface {
	New(st *wire.Struct) Obj
	Set(o Obj, st *wire.Struct, f *wire.Field, v *wire.Val)
	Get(o Obj, st *wire.Struct, f *wire.Field) *wire.Val
	Encode(o Obj, st *wire.Struct, buf []*sym.Term, start int) Res
	EncodeFresh(o Obj, st *wire.Struct) (Res, bool) // false: target has no such entry
	EncodeSize(o Obj, st *wire.Struct) Res
	DecodeSize(st *wire.Struct, buf []*sym.Term, start int) Res
	Decode(o Obj, st *wire.Struct, buf []*sym.Term, start int) Res
	CallGet(o Obj, st *wire.Struct, m *wire.Method) Res                // Ret holds the raw bits of the result
	CallSet(o Obj, st *wire.Struct, m *wire.Method, arg *sym.Term) Res // arg: raw bits
	Funcs() map[string]int                                             // functions of the generated code executed
}

// Mutator is implemented by targets whose decoded bytes may alias the input.
type Mutator interface {
	NewBuf(buf []*sym.Term) any                            // a handle to a live buffer
	FieldOwn(o Obj, st *wire.Struct, f *wire.Field, h any) // the field refers to the buffer
	DecodeKeep(o Obj, st *wire.Struct, h any, start int) Res
	BufSet(h any, i int, v *sym.Term)
	BufGet(h any, i int) *sym.Term
	FieldByteSet(o Obj, st *wire.Struct, f *wire.Field, i int, v *sym.Term)
}

// SetAll stores a whole value.
func SetAll(s Session, o Obj, st *wire.Struct, v *wire.Val) {
	for _, f := range st.Flat() {
		if x := v.F[f.Name]; x != nil {
			s.Set(o, st, f, x)
		}
	}
}

// GetAll reads every field.
func GetAll(s Session, o Obj, st *wire.Struct) *wire.Val {
	v := &wire.Val{F: map[string]*wire.Val{}}
	for _, f := range st.Flat() {
		if f.Kind == wire.KVoid || f.Const != "" {
			continue
		}
		v.F[f.Name] = s.Get(o, st, f)
	}
	return v
}

// Norm strips case and underscores for name matching.
func Norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// EqVal is field-wise equality. Enum widths may differ between targets.
func EqVal(c *sym.Ctx, f *wire.Field, a, b *wire.Val) *sym.Term {
	if a == nil || b == nil {
		return c.False()
	}
	r := c.True()
	if f.N > 0 {
		if len(a.Elems) != len(b.Elems) {
			return c.False()
		}
		g := *f
		g.N, g.Bits = 0, f.ElemBits()
		for i := range a.Elems {
			r = c.And(r, EqVal(c, &g, a.Elems[i], b.Elems[i]))
		}
		return r
	}
	switch f.Kind {
	case wire.KString, wire.KBytes:
		if len(a.B) != len(b.B) {
			return c.False()
		}
		for i := range a.B {
			r = c.And(r, c.Eq(a.B[i], b.B[i]))
		}
		return r
	case wire.KStruct:
		return EqStruct(c, f.Struct, a, b)
	}
	x, y := a.T, b.T
	if x == nil || y == nil {
		return c.False()
	}
	if f.Kind == wire.KEnum || x.W != y.W && f.Kind != wire.KBool {
		// enum widths differ between targets; values wider than the field's type
		// are out of its range and signed
		w := max(x.W, y.W) + 1
		ext := func(t *sym.Term) *sym.Term {
			if f.Kind.Signed() || t.W > f.StoreBits() {
				return c.Sext(t, w)
			}
			return c.Zext(t, w)
		}
		return c.Eq(ext(x), ext(y))
	}
	if f.Kind.Float() {
		return c.Or(c.Eq(x, y), c.And(IsNaN(c, x), IsNaN(c, y)))
	}
	if f.Kind == wire.KBool && x.W != y.W {
		x, y = wire.AsBV(c, x), wire.AsBV(c, y)
	}
	return c.Eq(x, y)
}

func EqStruct(c *sym.Ctx, st *wire.Struct, a, b *wire.Val) *sym.Term {
	r := c.True()
	for _, f := range st.Flat() {
		if f.Kind == wire.KVoid || f.Const != "" {
			continue
		}
		r = c.And(r, EqVal(c, f, a.F[f.Name], b.F[f.Name]))
	}
	return r
}

func IsNaN(c *sym.Ctx, x *sym.Term) *sym.Term {
	if x.W == 32 {
		return c.Ugt(c.And(x, c.BV(32, 0x7fffffff)), c.BV(32, 0x7f800000))
	}
	return c.Ugt(c.And(x, c.BV(64, 0x7fffffffffffffff)), c.BV(64, 0x7ff0000000000000))
}

// Backend is one target language's front end and replay driver.
type Backend struct {
	// Load translates the generated code of jobs; per-job problems go to Job.Err.
	Load   func(e *Env, jobs []*Job) error
	Replay func(e *Env, ops []*Op) ([][]string, error)
}

// Backends by target name.
var Backends = map[string]Backend{}

// Env describes where things are.
type Env struct {
	Repo    string
	Scratch string
	Bubbler string
}

// RepoEnv is the environment for building /repo.
func RepoEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly -buildvcs=false", "GOWORK=off")
}

// NewEnv builds the compiler from the repository's working tree.
func NewEnv(repo string) (*Env, error) {
	base := os.Getenv("VSYM_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "vsym-")
	if err != nil {
		return nil, err
	}
	e := &Env{Repo: repo, Scratch: d, Bubbler: filepath.Join(d, "bubbler")}
	cmd := exec.Command("go", "build", "-o", e.Bubbler, ".")
	cmd.Dir = repo
	cmd.Env = RepoEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		e.Close()
		return nil, fmt.Errorf("building bubbler: %v\n%s", err, out)
	}
	return e, nil
}

func (e *Env) Close() {
	if os.Getenv("VSYM_KEEP") != "" {
		fmt.Fprintln(os.Stderr, "kept", e.Scratch)
		return
	}
	os.RemoveAll(e.Scratch)
}

// Generate runs bubbler for a job into its own directory.
func (e *Env) Generate(j *Job) error {
	dir := filepath.Join(e.Scratch, j.Target, j.ID)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	src := filepath.Join(e.Scratch, "src", j.Target+"_"+j.ID)
	if err := os.MkdirAll(src, 0o755); err != nil {
		return err
	}
	f := filepath.Join(src, "s.bb")
	if err := os.WriteFile(f, []byte(j.Unit.Source()), 0o644); err != nil {
		return err
	}
	to := dir
	if j.Has("-single") {
		// the file the target would have been given, named by hand
		to = filepath.Join(dir, map[string]string{"go": j.Unit.Pkg + "/" + j.Unit.Pkg + ".bb.go", "c": j.Unit.Pkg + ".bb.c", "cpp": j.Unit.Pkg + ".bb.cpp",
			"commonjs": j.Unit.Pkg + ".bb.js", "esmodule": j.Unit.Pkg + ".bb.js", "python": j.Unit.Pkg + "_bb.py"}[j.Target])
		if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
			return err
		}
	}
	args := append([]string{"-t", j.Target, "-o", to}, j.Opts...)
	args = append(args, f)
	cmd := exec.Command(e.Bubbler, args...)
	cmd.Env = append(os.Environ(), "GOGC=400")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("bubbler %v: %v\n%s\n%s", args, err, out, j.Unit.Source())
	}
	j.Dir = dir
	return nil
}
