// Package dyn executes the syntax trees of generated Python and JavaScript
// code symbolically. The trees come from the languages' own parsers (Python's
// ast module, acorn) as JSON; everything else - values, operators, control
// flow, the library surface the generated code uses - is modelled here.
package dyn

import (
	"encoding/json"
	"fmt"
	"io"
)

// Node is a syntax tree node with its fields by name.
type Node struct {
	T    string
	Line int
	F    map[string]any
	lit  Value // cached literal
	has  bool
	aux  any // front-end annotation
}

func (n *Node) N(k string) *Node {
	x, _ := n.F[k].(*Node)
	return x
}

func (n *Node) L(k string) []*Node {
	x, _ := n.F[k].([]*Node)
	return x
}

func (n *Node) S(k string) string {
	x, _ := n.F[k].(string)
	return x
}

func (n *Node) B(k string) bool {
	x, _ := n.F[k].(bool)
	return x
}

// ReadAST decodes one tree: objects with a "type" member are nodes.
func ReadAST(r io.Reader) (*Node, error) {
	d := json.NewDecoder(r)
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	n, ok := conv(x).(*Node)
	if !ok {
		return nil, fmt.Errorf("not a syntax tree")
	}
	return n, nil
}

func conv(x any) any {
	switch x := x.(type) {
	case map[string]any:
		t, ok := x["type"].(string)
		if !ok {
			m := map[string]any{}
			for k, v := range x {
				m[k] = conv(v)
			}
			return m
		}
		n := &Node{T: t, F: map[string]any{}}
		for k, v := range x {
			switch k {
			case "type", "start", "end":
			case "line":
				if l, ok := v.(json.Number); ok {
					i, _ := l.Int64()
					n.Line = int(i)
				}
			default:
				n.F[k] = conv(v)
			}
		}
		return n
	case []any:
		ns := make([]*Node, len(x))
		for i, v := range x {
			ns[i], _ = conv(v).(*Node) // null: hole
		}
		return ns
	}
	return x
}
