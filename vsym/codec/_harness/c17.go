package main

import (
	"fmt"
	"strings"

	"github.com/xaxys/bubbler/util"
)

type omEntry struct {
	k, v int
	anon bool
}

// omModel is the specification: a list of live entries in first-insertion order.
type omModel struct{ l []omEntry }

func (m *omModel) find(k int) int {
	for i, e := range m.l {
		if !e.anon && e.k == k {
			return i
		}
	}
	return -1
}

// HOrderedMap applies the operations named by ops ('p' Put, 'm' MustPut, 'r'
// Remove, 'c' Clear, 'a' PutAnonymous) with keys k[i] and compares the map with
// the specification after each. Key 0 is the anonymous key and is not used.
func HOrderedMap(ops string, k0, k1, k2, k3, k4, k5 int) (string, string) {
	ks := []int{k0, k1, k2, k3, k4, k5}
	m := util.NewOrderedMap[int, int]()
	sp := &omModel{}
	for i := 0; i < len(ops); i++ {
		k := ks[i]
		Assume(k != 0)
		v := 100 + i
		switch ops[i] {
		case 'p':
			got := m.Put(k, v)
			j := sp.find(k)
			if got != (j < 0) {
				return "Put reports whether the key is new", ""
			}
			if j < 0 {
				sp.l = append(sp.l, omEntry{k: k, v: v})
			}
		case 'm':
			m.MustPut(k, v)
			if j := sp.find(k); j >= 0 {
				sp.l[j].v = v
			} else {
				sp.l = append(sp.l, omEntry{k: k, v: v})
			}
		case 'r':
			m.Remove(k)
			if j := sp.find(k); j >= 0 {
				l := append([]omEntry{}, sp.l[:j]...)
				sp.l = append(l, sp.l[j+1:]...)
			}
		case 'c':
			m.Clear()
			sp.l = nil
		case 'a':
			m.PutAnonymous(v)
			sp.l = append(sp.l, omEntry{v: v, anon: true})
		}
	}
	if f := omCompare(m, sp, ks[:len(ops)]); f != "" {
		return f, ""
	}
	// a sub-range holds the same entries in the same order
	n := len(sp.l)
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			s := m.Sub(a, b)
			if s == nil {
				return "Sub of a valid range", ""
			}
			if f := omCompare(s, &omModel{sp.l[a:b]}, ks[:len(ops)]); f != "" {
				return "Sub: " + f, ""
			}
		}
	}
	if f := omCompare(m, sp, ks[:len(ops)]); f != "" {
		return "after Sub: " + f, ""
	}
	var sb strings.Builder
	for _, v := range m.Values() {
		sb.WriteString(fmt.Sprintf("%d,", v))
	}
	return "", sb.String()
}

func omCompare(m *util.OrderedMap[int, int], sp *omModel, ks []int) string {
	if m.Len() != len(sp.l) {
		return "Len counts the live entries"
	}
	keys, vals, ents := m.Keys(), m.Values(), m.Entries()
	if len(keys) != len(sp.l) || len(vals) != len(sp.l) || len(ents) != len(sp.l) {
		return "Keys, Values and Entries list every live entry once"
	}
	for i, e := range sp.l {
		if vals[i] != e.v || ents[i].Value != e.v || m.Index(i).Value != e.v {
			return "values in first-insertion order"
		}
		if keys[i] != e.k || ents[i].Key != e.k || m.Index(i).Key != e.k {
			return "keys in first-insertion order"
		}
	}
	if n := len(sp.l); n > 0 {
		if m.First().Value != sp.l[0].v || m.Last().Value != sp.l[n-1].v || m.First().Key != sp.l[0].k || m.Last().Key != sp.l[n-1].k {
			return "First and Last"
		}
	}
	for _, k := range ks {
		j := sp.find(k)
		v, ok := m.Get(k)
		if ok != (j >= 0) || m.Has(k) != (j >= 0) {
			return "membership"
		}
		if m.Rank(k) != j {
			return "Rank is the position"
		}
		if j >= 0 && (v != sp.l[j].v || m.MustGet(k) != sp.l[j].v) {
			return "a lookup returns the last value put"
		}
		if j < 0 && (v != 0 || m.MustGet(k) != 0) {
			return "a lookup of an absent key returns the zero value"
		}
	}
	return ""
}
