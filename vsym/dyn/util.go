package dyn

import (
	"math"
	"unicode/utf16"
)

func f64bits(f float64) uint64 { return math.Float64bits(f) }
func f64from(u uint64) float64 { return math.Float64frombits(u) }
func utf16s(s string) []uint16 { return utf16.Encode([]rune(s)) }
