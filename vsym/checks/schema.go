package checks

import (
	"fmt"

	"vsym/codec"
	"vsym/wire"
)

// b collects structs into units of bounded size.
type unitSet struct {
	units []*wire.Unit
	max   int
	name  string
	cur   *wire.Unit
}

func (u *unitSet) unit() *wire.Unit {
	if u.cur == nil || len(u.cur.Structs) >= u.max {
		u.cur = &wire.Unit{Pkg: fmt.Sprintf("%s%d", u.name, len(u.units))}
		u.units = append(u.units, u.cur)
	}
	return u.cur
}

func (u *unitSet) add(s *wire.Struct, enums ...*wire.Enum) {
	x := u.unit()
	x.Enums = append(x.Enums, enums...)
	x.Structs = append(x.Structs, s)
}

var intKinds = []wire.Kind{wire.KU8, wire.KU16, wire.KU32, wire.KU64, wire.KI8, wire.KI16, wire.KI32, wire.KI64}

var kindTag = map[wire.Kind]string{wire.KBool: "B", wire.KU8: "U8", wire.KU16: "U16", wire.KU32: "U32", wire.KU64: "U64", wire.KI8: "I8", wire.KI16: "I16",
	wire.KI32: "I32", wire.KI64: "I64", wire.KF32: "F32", wire.KF64: "F64", wire.KEnum: "E"}

// spread lays copies of a field at the given start bits, with live neighbours.
func spread(name string, mk func(i int) *wire.Field, w int, starts []int) *wire.Struct {
	s := &wire.Struct{Name: name}
	pos := 0
	fill := func(to int) {
		n := ((to-pos)%8 + 8) % 8
		if n > 0 {
			s.Fields = append(s.Fields, &wire.Field{Name: fmt.Sprintf("g%d", len(s.Fields)), Kind: wire.KU8, Bits: n})
			pos += n
		}
	}
	for i, k := range starts {
		fill(k)
		s.Fields = append(s.Fields, mk(i))
		pos += w
	}
	fill(0)
	return s
}

var allStarts = []int{0, 1, 2, 3, 4, 5, 6, 7}

func keepBits(w int) string { return fmt.Sprint(w) }

// widths lists the declared widths to cover for a kind.
func (r *Run) widths(k wire.Kind) []int {
	w := k.Width()
	if k == wire.KBool {
		w = 8
	}
	if k.Float() {
		if r.Quick() {
			if w == 32 {
				return []int{32, 31, 24, 17, 9, 8, 1}
			}
			return []int{64, 63, 56, 53, 33, 32, 16, 7}
		}
	}
	if !r.Quick() {
		var out []int
		for i := 1; i <= w; i++ {
			out = append(out, i)
		}
		return out
	}
	switch w {
	case 8:
		return []int{1, 2, 3, 4, 5, 6, 7, 8}
	case 16:
		return []int{16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 3, 1}
	case 32:
		out := []int{32, 31, 30, 26, 25, 24, 23, 20, 18, 17, 16, 15, 12, 9, 8, 5, 1}
		return append(out, 27+r.Rng.Intn(3))
	}
	out := []int{64, 63, 62, 60, 58, 57, 56, 55, 53, 52, 49, 48, 47, 41, 40, 36, 34, 33, 32, 31, 25, 24, 17, 16, 12, 9, 8, 7, 4, 1}
	return append(out, 42+r.Rng.Intn(5), 50+r.Rng.Intn(2))
}

// scalarUnits is the scalar field family.
func (r *Run) scalarUnits() []*wire.Unit {
	us := &unitSet{max: 24, name: "sc"}
	for _, big := range []bool{false, true} {
		o := "L"
		if big {
			o = "M"
		}
		for _, k := range append([]wire.Kind{wire.KBool, wire.KF32, wire.KF64}, intKinds...) {
			for _, w := range r.widths(k) {
				us.add(spread(fmt.Sprintf("S%s%sX%d", o, kindTag[k], w), func(i int) *wire.Field {
					return &wire.Field{Name: fmt.Sprintf("f%d", i), Kind: k, Bits: w, Big: big}
				}, w, allStarts))
			}
		}
		ew := []int{1, 3, 7, 8, 9, 12, 16, 17, 23, 32}
		if !r.Quick() {
			ew = nil
			for i := 1; i <= 32; i++ {
				ew = append(ew, i)
			}
		}
		for _, w := range ew {
			top := uint64(1)<<uint(min(w, 31)) - 1
			x := us.unit()
			// named by the unit that owns it
			e := &wire.Enum{Name: fmt.Sprintf("En%s%d", o, w), Bits: w, Names: []string{fmt.Sprintf("EN%s%d_A", o, w), fmt.Sprintf("EN%s%d_Z", o, w)}, Values: []uint64{0, top}}
			x.Enums = append(x.Enums, e)
			x.Structs = append(x.Structs, spread(fmt.Sprintf("S%sEX%d", o, w), func(i int) *wire.Field {
				return &wire.Field{Name: fmt.Sprintf("f%d", i), Kind: wire.KEnum, Enum: e, Bits: w, Big: big}
			}, w, allStarts))
		}
	}
	return us.units
}

// jobs makes one job per unit, target and option set.
func (r *Run) jobsFor(units []*wire.Unit, targets []string, optSets func(target string, u *wire.Unit) [][]string) []*codec.Job {
	var out []*codec.Job
	for _, t := range targets {
		for k, u := range units {
			sets := [][]string{nil}
			if optSets != nil {
				sets = optSets(t, u)
			}
			if r.Copies {
				sets = append(sets, r.copySets(t, sets[0], k, len(units))...)
			}
			for i, o := range sets {
				c := *u
				suffix := string(rune('a' + i%26))
				if i >= 26 {
					suffix = string(rune('a'+i/26-1)) + suffix
				}
				c.Pkg = "p" + u.Pkg + suffix
				out = append(out, &codec.Job{ID: c.Pkg, Base: u.Pkg, Unit: &c, Opts: o, Target: t})
			}
		}
	}
	return out
}

// copySets gives the option sets under which a target takes its run-time helpers
// or its object layout from another copy of the templates: -single has one of
// its own, -compat and -minimal -inner select other parts. Quick runs try them on
// some units of each family, thorough ones on all.
func (r *Run) copySets(target string, base []string, k, n int) [][]string {
	with := func(o ...string) []string { return append(append([]string(nil), base...), o...) }
	var sets [][]string
	if !r.Quick() || k%4 == 0 || k == n-1 {
		sets = append(sets, with("-single"))
	}
	if !r.Quick() || k == n-1 {
		if target == "cpp" || target == "commonjs" || target == "esmodule" {
			sets = append(sets, with("-compat", "-decnum"))
		}
		sets = append(sets, with("-minimal", "-inner"))
	}
	return sets
}
