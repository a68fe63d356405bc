package main

// A harness function takes symbolic arguments and returns the name of the
// clause that does not hold ("" when all do) and an observable rendering of
// what the repository's code returned.

// Assume restricts the inputs; the checker replaces it.
func Assume(b bool) {
	if !b {
		panic("assumption does not hold")
	}
}

// Chars assumes that the first character of s lies in one class and the others
// in another; a class is a list of characters and ranges. The checker replaces
// it by one condition per character.
func Chars(s, first, rest string) {
	for i := 0; i < len(s); i++ {
		cl := rest
		if i == 0 {
			cl = first
		}
		ok := false
		for k := 0; k < len(cl); k++ {
			if k+2 < len(cl) && cl[k+1] == '-' {
				ok = ok || s[i] >= cl[k] && s[i] <= cl[k+2]
				k += 2
			} else {
				ok = ok || s[i] == cl[k]
			}
		}
		Assume(ok)
	}
}

const (
	letters = "a-zA-Z_"
	alnum   = "a-zA-Z_0-9"
)
