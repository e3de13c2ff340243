package main

import "math"

// Numbers of module Ext: counts of sixteenths, and sentinels.
const (
	cOff   = 999999937
	cTPos  = 999999938 // a number next to zero
	cTNeg  = 999999939
	cOneUp = 999999940 // the number that follows one
	cNaN   = 1000000001
	cPInf  = 1000000002
	cNInf  = 1000000003
)

const tiny = 1e-30

var oneUp = math.Nextafter(1, 2)

// unit is what the contents of one script are measured in: a power of two.
// The operations carried out when it is not 1 are those whose results do not
// depend on it; in a product, one operand is taken without it.
var unit, unitExp = 1.0, 0

var unitExps = []int{-1000, -60, 60, 900}

func setUnit(z int) { unit, unitExp = math.Ldexp(1, z), z }

func fl(k int) float64 {
	switch k {
	case cTPos:
		return tiny
	case cTNeg:
		return -tiny
	case cOneUp:
		return oneUp
	case cNaN:
		return math.NaN()
	case cPInf:
		return math.Inf(1)
	case cNInf:
		return math.Inf(-1)
	}
	return float64(k) / 16 * unit
}

// fc is fl for a factor, which has no unit.
func fc(k int) float64 {
	if k >= cOff {
		return fl(k)
	}
	return float64(k) / 16
}

func un(f float64) int {
	switch {
	case f == tiny:
		return cTPos
	case f == -tiny:
		return cTNeg
	case f == oneUp:
		return cOneUp
	case math.IsNaN(f):
		return cNaN
	case math.IsInf(f, 1):
		return cPInf
	case math.IsInf(f, -1):
		return cNInf
	}
	k := f / unit * 16
	if k != math.Trunc(k) || math.Abs(k) > 9e8 {
		return cOff
	}
	return int(k)
}

func fls(k []int) []float64 {
	if k == nil {
		return nil
	}
	return window(make([]float64, len(k)+3), 0, k)
}

// window fills s[at:at+len(k)], a part of a larger array, and what lies behind it.
func window(s []float64, at int, k []int) []float64 {
	for i := range k {
		s[at+i] = fl(k[i])
	}
	for i := len(s) - 3; i < len(s); i++ {
		s[i] = 777
	}
	return s[at : at+len(k)]
}

func uns(f []float64) []int {
	r := make([]int, len(f))
	for i := range f {
		r[i] = un(f[i])
	}
	return r
}

func flss(k [][]int) [][]float64 {
	r := make([][]float64, len(k))
	n := 3
	for i := range k {
		n += len(k[i])
	}
	// the rows lie one after another in one array
	s, at := make([]float64, n), 0
	for i := range k {
		if k[i] != nil {
			r[i] = window(s, at, k[i])
			at += len(k[i])
		}
	}
	return r
}

func unss(f [][]float64) [][]int {
	r := make([][]int, len(f))
	for i := range f {
		r[i] = uns(f[i])
	}
	return r
}
