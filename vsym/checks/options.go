package checks

import (
	"fmt"
	"io/fs"
	"maps"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"vsym/codec"
	"vsym/sym"
	"vsym/wire"
)

// optionSets lists the option sets tried: none, each option alone, all of them
// and, in depth, each pair.
func optionSets(thorough bool) [][]string {
	opts := strings.Fields("-signext=shift -signext=arith -decnum -minimal -single -relpath -memcpy -inner -compat")
	sets := [][]string{nil}
	for i, o := range opts {
		sets = append(sets, []string{o})
		for _, o2 := range opts[i+1:] {
			if thorough && !(strings.HasPrefix(o, "-signext") && strings.HasPrefix(o2, "-signext")) {
				sets = append(sets, []string{o, o2})
			}
		}
	}
	return append(sets, opts[1:])
}

// sameText reports whether two jobs have the same generated files up to the
// package name; what they do is then the same.
func sameText(a, b *codec.Job) bool {
	x, y := fileSet(a), fileSet(b)
	return len(x) > 0 && maps.Equal(x, y)
}

// head is the leading comment, which lists the options.
var head = regexp.MustCompile(`^(\s*(//|/\*|\*|# |#$).*\n|\s*\n)*`)

func fileSet(j *codec.Job) map[string]string {
	m := map[string]string{}
	dir := j.Dir
	pkg := regexp.MustCompile("(?i)" + j.Unit.Pkg)
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, err := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			if err == nil {
				m[pkg.ReplaceAllString(rel, "@")] = pkg.ReplaceAllString(head.ReplaceAllString(string(b), ""), "@")
			}
		}
		return nil
	})
	return m
}

// optEnc encodes one value with two sets of options.
func optEnc(a, b *codec.Job, st *wire.Struct, dynLen int) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s#enc.len%d%v", b.Target, b.Unit.Pkg, st.Name, dynLen, b.Opts), Target: b.Target, Traces: 1, Run: func(x *X) {
		v := wire.SymVal(x.Path, st, "v", fixedShape(dynLen), asciiOnly(a.Target))
		plain(x, a, st, v)
		ra, rb := x.Rec(a), x.Rec(b)
		n := ret64(x.Ctx, ra.EncodeSize(st, v))
		x.Check("encode_size is the same", x.Eq(n, ret64(x.Ctx, rb.EncodeSize(st, v))))
		if !n.IsConst() {
			x.Check("encode_size is a number", x.False())
			return
		}
		old := symBuf(x.Path, "old", int(n.V)+1)
		ea, eb := ra.Encode(st, v, old, 0), rb.Encode(st, v, old, 0)
		x.Check("encode completes, or not, with both", x.Bool((ea.Exc == "") == (eb.Exc == "")))
		if ea.Exc != "" || eb.Exc != "" {
			return
		}
		x.Check("encode returns the same", x.Eq(ret64(x.Ctx, ea), ret64(x.Ctx, eb)))
		x.Check("encode writes the same bytes", sameBytes(x.Ctx, ea.Buf, eb.Buf))
		fa, ok := ra.EncodeFresh(st, v)
		if fb, ok2 := rb.EncodeFresh(st, v); ok && ok2 {
			x.Check("encode to a new buffer completes, or not, with both", x.Bool((fa.Exc == "") == (fb.Exc == "")))
			if fa.Exc == "" && fb.Exc == "" {
				x.Check("encode to a new buffer gives the same bytes", sameBytes(x.Ctx, fa.Buf, fb.Buf))
			}
		}
	}}
}

func sameBytes(c *sym.Ctx, a, b []*sym.Term) *sym.Term {
	if len(a) != len(b) {
		return c.False()
	}
	r := c.True()
	for i := range a {
		r = c.And(r, c.Eq(a[i], b[i]))
	}
	return r
}

// optDec decodes one buffer with two sets of options.
func optDec(a, b *codec.Job, st *wire.Struct, n, start int) *Item {
	return &Item{Name: fmt.Sprintf("%s/%s/%s#dec.len%d.at%d%v", b.Target, b.Unit.Pkg, st.Name, n, start, b.Opts), Target: b.Target, Traces: 1, MaxPaths: 3000, Run: func(x *X) {
		buf := symBuf(x.Path, "b", start+n)
		out := wire.DecodeComplete(x.Path, st, buf[start:])
		plain(x, a, st, out.V)
		if !out.OK && !out.BadConst {
			x.Abort("frame is incomplete")
		}
		init := wire.SymVal(x.Path, st, "old", fixedShape(1), asciiOnly(a.Target))
		plain(x, a, st, init)
		ra, rb := x.Rec(a), x.Rec(b)
		qa, qb := ra.DecodeSize(st, buf, start), rb.DecodeSize(st, buf, start)
		x.Check("decode_size completes, or not, with both", x.Bool((qa.Exc == "") == (qb.Exc == "")))
		if qa.Exc == "" && qb.Exc == "" {
			x.Check("decode_size returns the same", x.Eq(ret64(x.Ctx, qa), ret64(x.Ctx, qb)))
		}
		da, va := ra.Decode(st, init, buf, start)
		db, vb := rb.Decode(st, init, buf, start)
		x.Check("decode completes, or not, with both", x.Bool((da.Exc == "") == (db.Exc == "")))
		if da.Exc != "" || db.Exc != "" {
			return
		}
		x.Check("decode returns the same", x.Eq(ret64(x.Ctx, da), ret64(x.Ctx, db)))
		if va != nil && vb != nil {
			x.Check("decode yields the same values", codec.EqStruct(x.Ctx, st, va, vb))
		}
	}}
}

// runC10: the options do not change the wire behaviour.
func runC10(r *Run) {
	var units []*wire.Unit
	units = append(units, r.mixUnits()...)
	units = append(units, r.nestUnits()...)
	ku := r.constUnits()
	units = append(units, lastUnit(ku), ku[0])
	jobs := r.Prepare(r.jobsFor(units, r.Targets, func(t string, u *wire.Unit) [][]string { return optionSets(r.Tier == "thorough") }))
	base := map[string]*codec.Job{}
	same := 0
	for _, j := range jobs {
		if len(j.Opts) == 0 {
			base[j.Target+j.Base] = j
		}
	}
	for _, j := range jobs {
		b := base[j.Target+j.Base]
		if b == nil || b == j {
			continue
		}
		if sameText(b, j) {
			same++
			continue
		}
		for _, st := range j.Unit.Structs {
			if !st.Dynamic() {
				r.Add(optEnc(b, j, st, 0))
				r.Add(optDec(b, j, st, st.FixedBits()/8, 0))
				continue
			}
			r.Add(optEnc(b, j, st, 2))
			r.Add(optDec(b, j, st, minSize(st)+1, 1))
		}
	}
	r.Bounds = append(r.Bounds, "each option alone, and all together, against none, for the mixed, nesting, variable-size and constant schemas; all values, buffers and previous states symbolic; variable content of 2 bytes when encoding and 1 when decoding")
	r.Bounds = append(r.Bounds, fmt.Sprintf("%d of %d programs generated with options are, byte for byte, what is generated without; those are not executed a second time", same, len(jobs)-len(base)))
	r.Execute()
}
