package checks

import (
	"fmt"
	"strings"
	"time"

	"vsym/codec"
	"vsym/goi"
	"vsym/sym"
)

// Harness loads harness files with the repository's packages.
func (r *Run) Harness(names ...string) (*codec.Job, *codec.Harness) {
	t0 := time.Now()
	j, h, err := codec.NewHarness(r.Env, names...)
	if err != nil {
		r.fatal = append(r.fatal, err.Error())
		return nil, nil
	}
	r.jobs = append(r.jobs, j)
	r.Logf("loaded harness %s (%.1fs)", names[0], time.Since(t0).Seconds())
	return j, h
}

// call runs a harness function and asserts that no clause is violated.
func (x *X) call(j *codec.Job, fn string, args ...codec.HArg) {
	f := x.Rec(j).Call(fn, args...)
	if f != "" {
		x.Check(f, x.False())
	}
}

// runC17: ordered map.
func runC17(r *Run) {
	j, _ := r.Harness("c17")
	if j == nil {
		return
	}
	n := 4
	if !r.Quick() {
		n = 5
	}
	alpha := "pmrca"
	r.Bounds = append(r.Bounds, fmt.Sprintf("every sequence of up to %d operations (Put, MustPut, Remove, Clear, PutAnonymous), every 64-bit non-zero key assignment; all observers compared at the end of every sequence (every prefix is itself a sequence)", n))
	r.Assume = append(r.Assume, "keys put by name differ from the zero key, which PutAnonymous reserves")
	var rec func(p string)
	rec = func(p string) {
		if len(p) == 2 || len(p) == n {
			r.Add(&Item{Name: "ops/" + p, Target: "harness", Traces: 1, MaxPaths: 200000, Run: func(x *X) {
				ops := p
				for len(ops) < n {
					c := x.Choose(fmt.Sprintf("op%d", len(ops)), len(alpha)+1)
					if c == len(alpha) {
						break
					}
					ops += alpha[c : c+1]
				}
				args := []codec.HArg{codec.HText(x.Path, ops)}
				for i := 0; i < 6; i++ {
					if i < len(ops) {
						args = append(args, codec.HInt(x.Var(fmt.Sprintf("k%d", i), 64)))
					} else {
						args = append(args, codec.HInt(x.BV(64, 0)))
					}
				}
				x.call(j, "HOrderedMap", args...)
			}})
			return
		}
		for i := range alpha {
			rec(p + alpha[i:i+1])
		}
	}
	rec("")
	r.Execute()
}

var _ = strings.Split
var _ = sym.Unsupported

var styles = []string{"Pascal", "camel", "snake", "ALLCAP"}

// runC18: name styles.
func runC18(r *Run) {
	j, _ := r.Harness("c18")
	if j == nil {
		return
	}
	n := 7
	if !r.Quick() {
		n = 9
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every identifier of 1..%d characters (all letters, digits, underscores symbolic), every style; dotted names of two parts with together up to 4 characters", n))
	vars := func(x *X, tag string, k int) codec.HArg {
		var b []*sym.Term
		for i := 0; i < k; i++ {
			b = append(b, x.Var(fmt.Sprintf("%s%d", tag, i), 8))
		}
		return codec.HStr(b)
	}
	for st := range styles {
		for k := 1; k <= n; k++ {
			r.Add(&Item{Name: fmt.Sprintf("%s/len%d", styles[st], k), Target: "harness", Traces: 4, MaxPaths: 400000, Run: func(x *X) {
				x.call(j, "HName", codec.HInt(x.BV(64, uint64(st))), vars(x, "s", k))
			}})
			if st != 2 {
				// the word boundaries of a converted name are not always
				// recoverable ("a_B" becomes "AB", "L3z" becomes "L3Z")
				continue
			}
			r.Add(&Item{Name: fmt.Sprintf("%s/idem/len%d", styles[st], k), Target: "harness", Traces: 2, MaxPaths: 400000, Run: func(x *X) {
				x.call(j, "HIdem", codec.HInt(x.BV(64, uint64(st))), vars(x, "s", k))
			}})
		}
		for a := 1; a <= 3; a++ {
			for b := 1; a+b <= 4; b++ {
				r.Add(&Item{Name: fmt.Sprintf("%s/dotted%d+%d", styles[st], a, b), Target: "harness", Traces: 2, MaxPaths: 400000, Run: func(x *X) {
					x.call(j, "HDotted", codec.HInt(x.BV(64, uint64(st))), vars(x, "s", a), vars(x, "t", b))
				}})
			}
		}
	}
	r.Execute()
}

func symStr(x *X, tag string, k int) codec.HArg {
	b := []*sym.Term{}
	for i := 0; i < k; i++ {
		b = append(b, x.Var(fmt.Sprintf("%s.%d", tag, i), 8))
	}
	return codec.HStr(b)
}

// runC16: paths between packages.
func runC16(r *Run) {
	j, _ := r.Harness("c16")
	if j == nil {
		return
	}
	n, l := 4, 3
	if !r.Quick() {
		l = 8
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every pair of packages of 1..%d components of 1..%d symbolic characters each (all components one length per instance, plus mixed lengths)", n, l))
	for na := 1; na <= n; na++ {
		for nb := 1; nb <= n; nb++ {
			for k := 1; k <= l+1; k++ {
				r.Add(&Item{Name: fmt.Sprintf("%d-%d/len%d", na, nb, k), Target: "harness", Traces: 3, MaxPaths: 100000, Run: func(x *X) {
					args := []codec.HArg{codec.HInt(x.BV(64, uint64(na))), codec.HInt(x.BV(64, uint64(nb)))}
					for side, m := range []int{na, nb} {
						for i := 0; i < 4; i++ {
							len := 0
							if i < m {
								len = k
								if k > l { // mixed lengths
									len = 1 + (i+side)%2
								}
							}
							args = append(args, symStr(x, fmt.Sprintf("%c%d", 'a'+side, i), len))
						}
					}
					x.call(j, "HRelative", args...)
				}})
			}
		}
	}
	r.Execute()
}

// runC20: output layout.
func runC20(r *Run) {
	j, h := r.Harness("c20")
	if j == nil {
		return
	}
	h.Stub = stubFS
	n, rl := 2, 4
	if !r.Quick() {
		n, rl = 3, 5
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("packages of 1..%d components of 1..2 symbolic characters, every -rmpath string of 0..%d symbolic characters (small letters, '/', ',', '.')", n, rl))
	for a := 1; a <= n; a++ {
		for l := 1; l <= 2; l++ {
			for k := 0; k <= rl; k++ {
				r.Add(&Item{Name: fmt.Sprintf("seg%dx%d/rm%d", a, l, k), Target: "harness", Traces: 3, MaxPaths: 300000, Run: func(x *X) {
					args := []codec.HArg{codec.HInt(x.BV(64, uint64(a)))}
					for i := 0; i < 3; i++ {
						k := 0
						if i < a {
							k = l
						}
						args = append(args, symStr(x, fmt.Sprintf("p%d", i), k))
					}
					x.call(j, "HWrite", append(args, symStr(x, "rm", k))...)
				}})
			}
		}
	}
	r.Execute()
}

// stubFS records writes below a fixed working directory.
func stubFS(in *goi.Interp) {
	const wd = "/w"
	var files []*goi.Str
	ok := func(in *goi.Interp, a []goi.Value) goi.Value { return goi.Iface{} }
	in.SetStub("os.Getwd", func(in *goi.Interp, a []goi.Value) goi.Value {
		return goi.Tuple{in.Text(wd), goi.Iface{}}
	})
	in.SetStub("os.MkdirAll", ok)
	in.SetStub("os.WriteFile", func(in *goi.Interp, a []goi.Value) goi.Value {
		files = append(files, a[0].(*goi.Str))
		return goi.Iface{}
	})
	in.SetStub("h.fresh", func(in *goi.Interp, a []goi.Value) goi.Value {
		return &goi.NativeFn{F: func(in *goi.Interp, a []goi.Value) goi.Value { return goi.Tuple(nil) }}
	})
	in.SetStub("h.Written", func(in *goi.Interp, a []goi.Value) goi.Value {
		var b []*sym.Term
		for i, f := range files {
			if i > 0 {
				b = append(b, in.P.BV(8, '\n'))
			}
			t := in.StrBytes(f)
			// relative to the working directory, as the native listing shows it
			pre := true
			for k := 0; k < len(wd)+1; k++ {
				c := byte('/')
				if k < len(wd) {
					c = wd[k]
				}
				if k >= len(t) || !in.P.Branch(in.P.Eq(t[k], in.P.BV(8, uint64(c)))) {
					pre = false
					break
				}
			}
			if pre {
				t = t[len(wd)+1:]
			}
			b = append(b, t...)
		}
		return in.SymStr(b)
	})
}
