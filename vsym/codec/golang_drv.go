package codec

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"vsym/wire"
)

func init() { Backends["go"] = Backend{LoadGo, ReplayGo} }

func pascal(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

func byteList(b []byte) string {
	var sb strings.Builder
	for i, x := range b {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprintf(&sb, "%d", x)
	}
	return sb.String()
}

func (l leaf) goExpr(o string) string {
	s := o
	for _, st := range l.path {
		s += "." + pascal(st.f.Name)
		if st.idx >= 0 {
			s += fmt.Sprintf("[%d]", st.idx)
		}
	}
	return s
}

// ReplayGo runs operations on the real generated Go code.
func ReplayGo(e *Env, ops []*Op) ([][]string, error) {
	dir, err := os.MkdirTemp(filepath.Join(e.Scratch, "go"), "zdrv")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	var imp, body strings.Builder
	seen := map[string]bool{}
	for i, o := range ops {
		pk := o.Job.Unit.Pkg
		if !seen[pk] {
			seen[pk] = true
			fmt.Fprintf(&imp, "import %s \"gen/%s/%s\"\n", pk, o.Job.ID, pk)
		}
		fmt.Fprintf(&body, "func op%d() {\n\tfmt.Println(\"#%d\")\n\tdefer func(){ if r := recover(); r != nil { fmt.Println(\"exc\") } }()\n", i, i)
		fmt.Fprintf(&body, "\tvar o %s.%s\n\t_ = o\n", pk, pascal(o.St.Name))
		if o.Init != nil {
			for _, l := range leaves(o.St, o.Init, nil, false) {
				x := l.goExpr("o")
				switch l.f.Kind {
				case wire.KString:
					fmt.Fprintf(&body, "\t%s = string([]byte{%s})\n", x, byteList(Bytes(l.v.B)))
				case wire.KBytes:
					fmt.Fprintf(&body, "\t%s = []byte{%s}\n", x, byteList(Bytes(l.v.B)))
				case wire.KBool:
					fmt.Fprintf(&body, "\t%s = %v\n", x, l.v.T.V == 1)
				case wire.KF32:
					fmt.Fprintf(&body, "\t%s = math.Float32frombits(%d)\n", x, l.v.T.V)
				case wire.KF64:
					fmt.Fprintf(&body, "\t%s = math.Float64frombits(%d)\n", x, l.v.T.V)
				default:
					if l.f.Kind.Signed() {
						fmt.Fprintf(&body, "\t%s = %d\n", x, l.v.T.S64())
					} else {
						fmt.Fprintf(&body, "\t%s = %d\n", x, l.v.T.V)
					}
				}
			}
		}
		fmt.Fprintf(&body, "\tb := []byte{%s}\n\t_ = b\n", byteList(Bytes(o.Buf)))
		dump := false
		switch o.Kind {
		case "encode":
			fmt.Fprintf(&body, "\tr := o.EncodeTo(b[%d:])\n\tfmt.Printf(\"ret=%%d buf=%%x\\n\", r, b)\n", o.Start)
		case "fresh":
			body.WriteString("\tr := o.Encode()\n\tfmt.Printf(\"ret=%d buf=%x\\n\", len(r), r)\n")
		case "encsize":
			body.WriteString("\tfmt.Printf(\"ret=%d\\n\", o.EncodeSize())\n")
		case "decsize":
			fmt.Fprintf(&body, "\tfmt.Printf(\"ret=%%d\\n\", o.DecodeSize(b[%d:]))\n", o.Start)
		case "decode":
			fmt.Fprintf(&body, "\tr := o.Decode(b[%d:])\n\tfmt.Printf(\"ret=%%d\\n\", r)\n\tif r < 0 { return }\n", o.Start)
			dump = true
		case "alias":
			for _, f := range o.St.Flat() {
				if o.Own && topBytes(f) {
					fmt.Fprintf(&body, "\to.%s = b\n", pascal(f.Name))
				}
			}
			fmt.Fprintf(&body, "\tr := o.Decode(b[%d:])\n\tfmt.Printf(\"ret=%%d\\n\", r)\n\tif r < 0 { return }\n\tcopy(b, []byte{%s})\n", o.Start, byteList(Bytes(o.Buf2)))
			dump = true
		case "get":
			fmt.Fprintf(&body, "\tpr(\"val\", o.Get%s())\n", pascal(o.M.Name))
		case "set":
			fmt.Fprintf(&body, "\to.Set%s(%s)\n", pascal(o.M.Name), goLit(o.M.Kind, o.Arg.V))
			dump = true
		}
		if dump {
			for _, l := range leaves(o.St, nil, nil, false) {
				_ = l
			}
			for _, l := range dumpLeaves(o) {
				fmt.Fprintf(&body, "\tpr(%q, %s)\n", l.label(), l.goExpr("o"))
			}
		}
		if o.Kind == "alias" {
			for _, k := range o.Poke {
				fmt.Fprintf(&body, "\tcopy(o.%s, []byte{%s})\n", pascal(k.F.Name), byteList(Bytes(k.B)))
			}
			body.WriteString("\tfmt.Printf(\"buf=%x\\n\", b)\n")
		}
		body.WriteString("}\n")
	}
	var src strings.Builder
	src.WriteString("package main\nimport (\"fmt\"; \"math\"; \"reflect\")\n")
	src.WriteString(imp.String())
	src.WriteString(`
var _ = math.Pi
func pr(n string, x any) {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Bool: if v.Bool() { fmt.Println(n+"=1") } else { fmt.Println(n+"=0") }
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		b := uint(v.Type().Bits())
		u := uint64(v.Int())
		if b < 64 { u &= 1<<b - 1 }
		fmt.Printf("%s=%x\n", n, u)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64: fmt.Printf("%s=%x\n", n, v.Uint())
	case reflect.Float32:
		f := float32(v.Float())
		if f != f { fmt.Println(n+"=nan") } else { fmt.Printf("%s=%x\n", n, math.Float32bits(f)) }
	case reflect.Float64:
		f := v.Float()
		if f != f { fmt.Println(n+"=nan") } else { fmt.Printf("%s=%x\n", n, math.Float64bits(f)) }
	case reflect.String: fmt.Printf("%s=%x\n", n, v.String())
	case reflect.Slice: fmt.Printf("%s=%x\n", n, v.Bytes())
	default: fmt.Println(n, "?", v.Kind())
	}
}
`)
	src.WriteString(body.String())
	src.WriteString("func main() {\n")
	for i := range ops {
		fmt.Fprintf(&src, "\top%d()\n", i)
	}
	src.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dir, "main.go"), []byte(src.String()), 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command("go", "run", ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("go driver: %v\n%s", err, out)
	}
	return SplitOutput(string(out), len(ops)), nil
}

// dumpLeaves lists the locations whose values are printed after decode/set,
// shaped like the predicted outcome.
func dumpLeaves(o *Op) []leaf { return leaves(o.St, o.After, nil, false) }

func goLit(k wire.Kind, v uint64) string {
	switch k {
	case wire.KBool:
		return fmt.Sprint(v&1 == 1)
	case wire.KF32:
		return fmt.Sprintf("math.Float32frombits(%d)", v)
	case wire.KF64:
		return fmt.Sprintf("math.Float64frombits(%d)", v)
	}
	if k.Signed() {
		return fmt.Sprint(signed(v, k.Width()))
	}
	return fmt.Sprint(v)
}

func signed(v uint64, w int) int64 {
	return int64(v<<(64-uint(w))) >> (64 - uint(w))
}
