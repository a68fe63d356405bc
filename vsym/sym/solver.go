package sym

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Stats are shared by all solvers of a run.
type Stats struct {
	Queries  atomic.Int64
	SatN     atomic.Int64
	UnsatN   atomic.Int64
	UnknownN atomic.Int64
	SolverNS atomic.Int64
	Trivial  atomic.Int64
	Tables   atomic.Int64 // branch feasibilities decided from value tables
	Paths    atomic.Int64
	Branches atomic.Int64
	Checks   atomic.Int64
}

// SolverName is the solver command line.
func SolverName() string {
	if b := os.Getenv("VSYM_SOLVER"); b != "" {
		return b
	}
	return "z3-new -in -smt2"
}

// Solver is one SMT process bound to one Ctx.
type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	ufs     int
	Stats   *Stats
	argv    []string
	tmo     int
	dump    io.Writer
}

func NewSolver(ctx *Ctx, st *Stats, timeoutMS int) *Solver {
	bin := SolverName()
	return &Solver{ctx: ctx, Stats: st, argv: strings.Fields(bin), tmo: timeoutMS}
}

func (s *Solver) start() {
	cmd := exec.Command(s.argv[0], s.argv[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.inC, s.in, s.out = cmd, in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	s.ufs = 0
	if d := os.Getenv("VSYM_DUMP"); d != "" {
		f, _ := os.OpenFile(d, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		s.dump = f
	}
	if strings.Contains(s.argv[0], "z3") {
		s.printf("(set-option :timeout %d)\n", s.tmo)
	} else {
		s.printf("(set-option :produce-models true)\n(set-option :incremental true)\n(set-option :tlimit-per %d)\n", s.tmo)
	}
	s.printf("(set-logic QF_UFBV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) printf(f string, a ...any) {
	if s.dump != nil {
		fmt.Fprintf(s.dump, f, a...)
	}
	fmt.Fprintf(s.in, f, a...)
}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func quote(n string) string { return "|" + n + "|" }

func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.V == 1 {
				return "true"
			}
			return "false"
		}
		if t.Big != nil {
			b := t.Big.Text(2)
			return "#b" + strings.Repeat("0", t.W-len(b)) + b
		}
		if t.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.W/4, t.V)
		}
		return fmt.Sprintf("#b%0*b", t.W, t.V)
	case OVar:
		return quote(t.Name)
	}
	return fmt.Sprintf("t%d", t.ID)
}

// define emits declarations and definitions for everything below t.
func (s *Solver) define(t *Term) {
	if t.Op == OConst || s.defined[t.ID] {
		return
	}
	type frame struct {
		t *Term
		i int
	}
	st := []frame{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.A) {
			a := f.t.A[f.i]
			f.i++
			if a.Op != OConst && !s.defined[a.ID] {
				st = append(st, frame{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.defined[x.ID] {
			continue
		}
		s.defined[x.ID] = true
		if x.Op == OVar {
			s.printf("(declare-fun %s () %s)\n", quote(x.Name), sortOf(x.W))
			continue
		}
		var body strings.Builder
		switch x.Op {
		case OExtract:
			fmt.Fprintf(&body, "((_ extract %d %d) %s)", int(x.V)+x.W-1, x.V, s.ref(x.A[0]))
		case OZext:
			fmt.Fprintf(&body, "((_ zero_extend %d) %s)", x.W-x.A[0].W, s.ref(x.A[0]))
		case OSext:
			fmt.Fprintf(&body, "((_ sign_extend %d) %s)", x.W-x.A[0].W, s.ref(x.A[0]))
		default:
			n := opNames[x.Op]
			switch x.Op {
			case ONot:
				n = "bvnot"
				if x.W == 0 {
					n = "not"
				}
			case OAnd:
				if x.W == 0 {
					n = "and"
				}
			case OOr:
				if x.W == 0 {
					n = "or"
				}
			case ONeg:
				n = "bvneg"
			case OIte:
				n = "ite"
			case OEq:
				n = "="
			case OUF:
				n = quote(x.Name)
				for s.ufs < len(s.ctx.UFList) {
					d := s.ctx.UFList[s.ufs]
					s.ufs++
					as := make([]string, len(d.Args))
					for i, w := range d.Args {
						as[i] = sortOf(w)
					}
					s.printf("(declare-fun %s (%s) %s)\n", quote(d.Name), strings.Join(as, " "), sortOf(d.Ret))
				}
			}
			body.WriteString("(" + n)
			for _, a := range x.A {
				body.WriteString(" " + s.ref(a))
			}
			body.WriteString(")")
		}
		s.printf("(define-fun t%d () %s %s)\n", x.ID, sortOf(x.W), body.String())
	}
}

// Check decides satisfiability of the conjunction. When want is non-nil and the
// answer is Sat, the values of these terms are returned.
func (s *Solver) Check(conj []*Term, want []*Term) (Result, map[*Term]*big.Int) {
	live := conj[:0:0]
	for _, t := range conj {
		if t.IsFalse() {
			s.Stats.Trivial.Add(1)
			return Unsat, nil
		}
		if !t.IsTrue() {
			live = append(live, t)
		}
	}
	if len(live) == 0 && len(want) == 0 {
		s.Stats.Trivial.Add(1)
		return Sat, map[*Term]*big.Int{}
	}
	for attempt := 0; ; attempt++ {
		r, m, err := s.check1(live, want)
		if err == nil {
			return r, m
		}
		s.Close()
		if attempt >= 1 {
			fmt.Fprintln(os.Stderr, "solver failure:", err)
			s.Stats.UnknownN.Add(1)
			return Unknown, nil
		}
	}
}

func (s *Solver) check1(live []*Term, want []*Term) (Result, map[*Term]*big.Int, error) {
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	for _, t := range live {
		s.define(t)
	}
	for _, t := range want {
		s.define(t)
	}
	s.printf("(push 1)\n")
	for _, t := range live {
		s.printf("(assert %s)\n", s.ref(t))
	}
	s.printf("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := s.line()
	if err != nil {
		return Unknown, nil, err
	}
	s.Stats.Queries.Add(1)
	var res Result
	switch line {
	case "sat":
		res = Sat
		s.Stats.SatN.Add(1)
	case "unsat":
		res = Unsat
		s.Stats.UnsatN.Add(1)
	case "unknown":
		res = Unknown
		s.Stats.UnknownN.Add(1)
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	var m map[*Term]*big.Int
	if res == Sat && len(want) > 0 {
		m = map[*Term]*big.Int{}
		for _, t := range want {
			if t.Op == OConst {
				m[t] = t.UBig()
				continue
			}
			s.printf("(get-value (%s))\n", s.ref(t))
			if err := s.in.Flush(); err != nil {
				return Unknown, nil, err
			}
			txt, err := s.sexp()
			if err != nil {
				return Unknown, nil, err
			}
			v, err := parseValue(txt)
			if err != nil {
				return Unknown, nil, err
			}
			m[t] = v
		}
	}
	s.printf("(pop 1)\n")
	s.Stats.SolverNS.Add(int64(time.Since(t0)))
	return res, m, nil
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) sexp() (string, error) {
	var sb strings.Builder
	depth, bar := 0, false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if b == '|' {
			bar = !bar
		}
		if !bar {
			if b == '(' {
				depth++
			}
			if b == ')' {
				depth--
			}
		}
		sb.WriteByte(b)
		if depth == 0 && b == ')' {
			return sb.String(), nil
		}
	}
}

func parseValue(txt string) (*big.Int, error) {
	if strings.Contains(txt, "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	t := strings.TrimSpace(txt)
	t = strings.TrimRight(t, ")")
	i := strings.LastIndexAny(t, " \n\t")
	v := strings.TrimSpace(t[i+1:])
	r := new(big.Int)
	switch {
	case v == "true":
		return r.SetInt64(1), nil
	case v == "false":
		return r, nil
	case strings.HasPrefix(v, "#x"):
		if _, ok := r.SetString(v[2:], 16); ok {
			return r, nil
		}
	case strings.HasPrefix(v, "#b"):
		if _, ok := r.SetString(v[2:], 2); ok {
			return r, nil
		}
	}
	return nil, fmt.Errorf("cannot read value %q", txt)
}
