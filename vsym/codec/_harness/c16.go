package main

import (
	"strings"

	"github.com/xaxys/bubbler/definition"
)

func segs(n int, s ...string) []string {
	r := s[:n]
	for _, x := range r {
		Chars(x, letters, alnum) // a package path component
	}
	return append([]string{}, r...)
}

// walk follows a relative path from a directory.
func walk(dir []string, steps []string) ([]string, bool) {
	cur := append([]string{}, dir...)
	for _, s := range steps {
		switch s {
		case ".":
		case "..":
			if len(cur) == 0 {
				return nil, false
			}
			cur = cur[:len(cur)-1]
		default:
			cur = append(cur, s)
		}
	}
	return cur, true
}

func sameSegs(a, b []string, ext string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		x := b[i]
		if i == len(a)-1 {
			x += ext
		}
		ok = ok && a[i] == x
	}
	return ok
}

// HRelative asks for the paths between packages of na and nb components.
func HRelative(na, nb int, a0, a1, a2, a3, b0, b1, b2, b3 string) (string, string) {
	a := segs(na, a0, a1, a2, a3)
	b := segs(nb, b0, b1, b2, b3)
	pa := definition.NewPackage(nil, append([]string{}, a...))
	pb := definition.NewPackage(nil, append([]string{}, b...))
	dir := a[:na-1]

	d := pa.Difference(pb)
	if got, ok := walk(dir, d); !ok || !sameSegs(got, b, "") {
		return "Difference leads to the package", strings.Join(d, " ")
	}

	rel := pa.ToRelativePath(pb, ".bb.h")
	if got, ok := walk(dir, strings.Split(rel, "/")); !ok || !sameSegs(got, b, ".bb.h") {
		return "ToRelativePath leads to the package's file", rel
	}

	strict := pa.ToRelativePathStrict(pb, ".bb.js")
	if !strings.HasPrefix(strict, "./") && !strings.HasPrefix(strict, "../") {
		return "ToRelativePathStrict starts with ./ or ../", strict
	}
	if got, ok := walk(dir, strings.Split(strict, "/")); !ok || !sameSegs(got, b, ".bb.js") {
		return "ToRelativePathStrict leads to the package's file", strict
	}

	py := pa.ToPyRelativePath(pb, "_bb")
	n := 0
	for n < len(py) && py[n] == '.' {
		n++
	}
	if n == 0 || n-1 > len(dir) {
		return "the Python import starts at a directory that exists", py
	}
	start := dir[:len(dir)-(n-1)]
	if got, ok := walk(start, strings.Split(py[n:], ".")); !ok || !sameSegs(got, b, "_bb") {
		return "the Python relative import names the package's module", py
	}

	// the package's own file
	file := pa.ToFilePath(".bb.c")
	if got, ok := walk(nil, strings.Split(file, "/")); !ok || !sameSegs(got, a, ".bb.c") {
		return "ToFilePath is the package's file", file
	}
	if dot := pa.ToPath("::", ""); !sameSegs(strings.Split(dot, "::"), a, "") {
		return "ToPath joins the components", dot
	}
	if !sameSegs(strings.Split(pa.String(), "."), a, "") {
		return "String is the dotted name", pa.String()
	}
	if pa.PackageName != a[na-1] || len(pa.PackagePath) != na-1 {
		return "name and path of a package", pa.PackageName
	}
	eq := na == nb
	for i := 0; i < na && i < nb; i++ {
		eq = eq && a[i] == b[i]
	}
	if pa.PackageEquals(pb) != eq {
		return "PackageEquals compares the full paths", ""
	}
	return "", rel + " " + py
}
