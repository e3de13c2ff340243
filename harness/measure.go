package main

import (
	"math"

	"github.com/jtejido/linear"
)

// fx puts a number on the fixed-point grid of module Fx.
func fx(f float64) [2]int {
	if math.IsNaN(f) || math.Abs(f) >= 1<<20-1 {
		return [2]int{1 << 30, 0}
	}
	k := int64(math.RoundToEven(math.Ldexp(f, 40)))
	return [2]int{int(k >> 30), int(k & (1<<30 - 1))}
}

func fxs(v []float64) [][2]int {
	r := make([][2]int, len(v))
	for i := range v {
		r[i] = fx(v[i])
	}
	return r
}

func entries(v linear.RealVector) []float64 {
	r := make([]float64, v.Dimension())
	for i := range r {
		r[i] = v.At(i)
	}
	return r
}

// execQ asks for a measure of e.X (and e.Y).
func (h *heap) execQ(e *ev) {
	x, y := h.vec(e.X), h.vec(e.Y)
	m := h.mat(e.X)
	if e.Z != 0 {
		// The same at another scale: the operands times 2^Z, the result
		// taken back by as much as it ought to have grown.
		switch {
		case e.Op == "Frob":
			m = scaledMat(m, e.Z)
		default:
			x = scaledVec(x, e.Z)
			if y != nil {
				y = scaledVec(y, e.Z)
			}
		}
	}
	down := 0
	switch e.Op {
	case "Cos", "Unit", "Unitize":
	case "Dot":
		down = -2 * e.Z
	default:
		down = -e.Z
	}
	back := func(f float64) float64 {
		if down == 0 {
			return f
		}
		return math.Ldexp(f, down)
	}
	exact := func(f float64) { e.Ret = []int{un(back(f))} }
	grid := func(f float64) {
		f = back(f)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			e.Ret = []int{un(f)}
		}
		e.FX = [][2]int{fx(f)}
	}
	many := func(v linear.RealVector) {
		for _, f := range entries(v) {
			e.FX = append(e.FX, fx(back(f)))
		}
	}
	switch e.Op {
	case "Norm":
		grid(linear.VecNorm(x))
	case "L1":
		exact(linear.VecL1Norm(x))
	case "LInfV":
		exact(linear.VecLInfNorm(x))
	case "Dist":
		grid(linear.VecDistance(x, y))
	case "L1Dist":
		exact(linear.VecL1Distance(x, y))
	case "LInfDist":
		exact(linear.VecLInfDistance(x, y))
	case "Dot":
		exact(linear.VecDotProduct(x, y))
	case "Cos":
		grid(linear.VecCosine(x, y))
	case "MinI":
		e.Ret = []int{linear.MinIndex(x)}
	case "MaxI":
		e.Ret = []int{linear.MaxIndex(x)}
	case "MinV":
		exact(linear.MinValue(x))
	case "MaxV":
		exact(linear.MaxValue(x))
	case "Unit":
		u := linear.UnitVector(x)
		many(u)
		scribble(u)
	case "Unitize":
		c := x.Copy()
		c.Unitize()
		many(c)
	case "Proj":
		p := linear.Projection(x, y)
		many(p)
		scribble(p)
	case "Frob":
		grid(linear.MatFrobeniusNorm(m))
	default:
		panic("unknown " + e.Op)
	}
}

func scaledVec(v linear.RealVector, z int) linear.RealVector {
	f := entries(v)
	for i := range f {
		f[i] = math.Ldexp(f[i], z)
	}
	c, err := linear.NewArrayRealVectorFromSlice(f)
	must(err, c == nil)
	var r linear.RealVector = c
	if _, ok := v.(foreignVec); ok {
		return foreignVec{r}
	}
	return r
}

func scaledMat(m linear.RealMatrix, z int) linear.RealMatrix {
	r := m.ScalarMultiply(math.Ldexp(1, z))
	if _, ok := m.(foreignMat); ok {
		return foreignMat{r}
	}
	return r
}

// scribble writes to a result: if it shares storage with an operand, the
// operand is seen to change.
func scribble(v linear.RealVector) {
	if v.Dimension() > 0 {
		v.SetEntry(0, v.At(0)+1)
	}
}
