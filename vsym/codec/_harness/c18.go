package main

import "github.com/xaxys/bubbler/util"

func isU(c byte) bool { return c >= 'A' && c <= 'Z' }
func isL(c byte) bool { return c >= 'a' && c <= 'z' }
func isD(c byte) bool { return c >= '0' && c <= '9' }

func lower(c byte) byte {
	if isU(c) {
		return c + 32
	}
	return c
}

func conv(style int, s string) string {
	switch style {
	case 0:
		return util.ToPascalCase(s)
	case 1:
		return util.TocamelCase(s)
	case 2:
		return util.Tosnake_case(s)
	}
	return util.ToALLCAP_CASE(s)
}

// core drops underscores.
func core(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '_' {
			r += s[i : i+1]
		}
	}
	return r
}

func leading(s string) int {
	n := 0
	for n < len(s) && s[n] == '_' {
		n++
	}
	return n
}

func trailing(s string) int {
	n := 0
	for n < len(s) && s[len(s)-1-n] == '_' {
		n++
	}
	return n
}

// HName converts the identifier s to a style.
func HName(style int, s string) (string, string) {
	Chars(s, letters, alnum)
	o := conv(style, s)
	if f := nameClauses(style, s, o); f != "" {
		return f, o
	}
	return "", o
}

func nameClauses(style int, s, o string) string {
	if len(o) == 0 {
		return "the result is not empty"
	}
	a, b := core(s), core(o)
	if len(a) != len(b) {
		return "same letters and digits in the same order"
	}
	for i := 0; i < len(a); i++ {
		if lower(a[i]) != lower(b[i]) {
			return "same letters and digits in the same order"
		}
	}
	if leading(s) != leading(o) || trailing(s) != trailing(o) {
		return "leading and trailing underscores are kept"
	}
	if isD(o[0]) {
		return "the result is an identifier"
	}
	if len(a) == 0 {
		return ""
	}
	lo, hi := leading(o), len(o)-trailing(o)
	for i := lo; i < hi; i++ {
		c := o[i]
		if !isU(c) && !isL(c) && !isD(c) && c != '_' {
			return "the result is an identifier"
		}
		switch style {
		case 0, 1:
			if c == '_' {
				return "camel and Pascal case join the words"
			}
		case 2:
			if isU(c) {
				return "snake case has no capitals"
			}
		case 3:
			if isL(c) {
				return "ALLCAP case has no small letters"
			}
		}
		if c == '_' && o[i+1] == '_' {
			return "words are separated by one underscore"
		}
	}
	if style == 0 && isL(o[lo]) {
		return "Pascal case starts with a capital"
	}
	if style == 1 && isU(o[lo]) {
		return "camel case starts with a small letter"
	}
	return ""
}

// HIdem converts twice.
func HIdem(style int, s string) (string, string) {
	Chars(s, letters, alnum)
	o := conv(style, s)
	p := conv(style, o)
	if p != o {
		return "converting again changes nothing", o + " " + p
	}
	return "", o
}

// HDotted converts a dotted name.
func HDotted(style int, s, t string) (string, string) {
	Chars(s, letters, alnum)
	Chars(t, letters, alnum)
	o := conv(style, s+"."+t)
	if o != conv(style, s)+"."+conv(style, t) {
		return "a dotted name is converted part by part", o
	}
	return "", o
}
