package main

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/xaxys/bubbler/definition"
	"github.com/xaxys/bubbler/generator/gen"
)

// Written lists the files below the working directory; the checker replaces
// it by the list of recorded writes.
func Written() string {
	var l []string
	filepath.Walk(".", func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			l = append(l, p)
		}
		return nil
	})
	return strings.Join(l, "\n")
}

// fresh enters a new scratch directory (natively).
func fresh() func() {
	d, err := os.MkdirTemp("", "c20-")
	if err != nil {
		panic(err)
	}
	old, _ := os.Getwd()
	if err := os.MkdirAll(d+"/w", 0o755); err != nil {
		panic(err)
	}
	os.Chdir(d + "/w")
	return func() {
		os.Chdir(old)
		os.RemoveAll(d)
	}
}

// HWrite writes the file of a package of n components with -rmpath rm.
func HWrite(n int, p0, p1, p2, rm string) (string, string) {
	p := []string{p0, p1, p2}[:n]
	for _, s := range p {
		Chars(s, letters, alnum)
	}
	Chars(rm, "a-z/,.", "a-z/,.")
	defer fresh()()
	ctx := &gen.GenCtx{OutputPath: "out", GenOptions: gen.NewGenOptions(gen.RemovePath(rm))}
	pkg := definition.NewPackage(nil, append([]string{}, p...))
	if err := ctx.WritePackage(pkg, ".bb.h", "text"); err != nil {
		return "writing a package succeeds", ""
	}
	got := Written()
	want := "out/" + expected(strings.Join(p, "/")+".bb.h", rm)
	if got != want {
		return "the file lies at the package path without the removed prefix", got
	}
	return "", got
}

// expected removes the first listed prefix that is a whole number of leading
// components of the file's path.
func expected(file, rm string) string {
	for _, r := range strings.Split(rm, ",") {
		for len(r) > 0 && r[len(r)-1] == '/' {
			r = r[:len(r)-1]
		}
		if r == "" {
			continue
		}
		if len(file) > len(r) && file[:len(r)] == r && file[len(r)] == '/' {
			return file[len(r)+1:]
		}
	}
	return file
}
