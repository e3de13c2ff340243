package main

import "math"

func init() {
	drivers["C07"] = driveC07
	drivers["C08"] = driveC08
	drivers["C09"] = driveC09
	drivers["C10"] = driveC10
	drivers["C22"] = driveC22
	drivers["C23"] = driveC23
}

var vecKinds = []string{"vec", "fvec"}
var vecResultOps = []string{"App", "AppVec", "SubVec", "Add", "Subt", "EMul", "EDiv", "Copy", "ToArr", "Ref"}

var divisors = []int{16, -16, 32, -32, 8, 4, 64}

func (g *gen) deriveV(x int, op, k2 string) (id, y int) {
	n := g.vec(x).Dimension()
	switch op {
	case "App":
		id = g.V(op, x, 0, nil, g.quarter())
	case "AppVec":
		y = g.mkV(k2, g.quarters(1+g.pick(3)))
		id = g.V(op, x, y, nil)
	case "SubVec":
		a, b := 0, n-1
		if n > 0 && g.pick(2) == 0 {
			a, b = g.rangeOf(n)
		}
		id = g.V(op, x, 0, []int{a, b - a + 1})
	case "EDiv":
		y = g.mkV(k2, vecOf(n, func() int { return pickOf(g, divisors[:4]) }))
		id = g.V(op, x, y, nil)
	case "Add", "Subt", "EMul":
		y = g.mkV(k2, g.quarters(n))
		id = g.V(op, x, y, nil)
	default:
		id = g.V(op, x, 0, nil)
	}
	return
}

var vecChanges = []string{"Set", "AddTo", "MapAdd", "MapSub", "MapMul", "Map", "CopyFrom", "Fill", "Comb", "SetSubVec", "SetSubArr", "walk", "bounded", "shared", "odd"}

// changeV performs an in-place request on valid arguments, keeping entries
// multiples of a quarter.
func (g *gen) changeV(x int) { g.changeVOp(x, pickOf(g, vecChanges)) }
func (g *gen) changeVOp(x int, op string) {
	n := g.vec(x).Dimension()
	if n == 0 {
		return
	}
	k2 := pickOf(g, vecKinds)
	switch op {
	case "Set", "AddTo":
		g.V(op, x, 0, []int{g.pick(n)}, g.quarter())
	case "MapAdd", "MapSub", "Fill":
		g.V(op, x, 0, nil, g.quarter())
	case "MapMul":
		g.V(op, x, 0, nil, pickOf(g, []int{0, 16, -16, 32, 48}))
	case "MapDiv":
		g.V(op, x, 0, nil, pickOf(g, []int{16, -16, 8, 4}))
	case "Map":
		g.V(op, x, 0, []int{1 + g.pick(4)})
	case "CopyFrom":
		y := g.mkV(k2, g.quarters(n))
		g.V(op, x, y, nil)
		g.spent(y)
	case "Comb":
		y := g.mkV(k2, g.quarters(n))
		g.V(op, x, y, nil, pickOf(g, []int{0, 16, -16, 32}), pickOf(g, []int{0, 16, -16, 32}))
		g.spent(y)
	case "SetSubVec":
		a, b := g.rangeOf(n)
		y := g.mkV(k2, g.quarters(b-a+1))
		g.V(op, x, y, []int{a})
		g.spent(y)
	case "SetSubArr":
		a, b := g.rangeOf(n)
		y := g.raw1(g.quarters(b - a + 1))
		g.V(op, x, y, []int{a})
		g.spent(y)
	case "walk":
		g.vwalk(x, pickOf(g, []string{"def", "opt"}), 1, "u1", nil)
	case "bounded":
		a, b := g.rangeOf(n)
		g.vwalk(x, pickOf(g, []string{"def", "opt"}), 1, "u1", []int{a, b})
	case "shared":
		raw := need(g.V("Ref", x, 0, nil))
		g.R(raw, g.quarter(), g.pick(n))
		g.drop(raw)
	case "odd":
		// an unusual number comes and goes
		i := g.pick(n)
		g.V("Set", x, 0, []int{i}, pickOf(g, specials))
		g.askV(x)
		g.V("Set", x, 0, []int{i}, g.quarter())
	}
}

// askV asks a vector everything that has an answer of its own.
func (g *gen) askV(x int) {
	ops := []string{"IsNaN", "IsInf", "Copy", "ToArr", "Eq", "Norm", "L1", "LInfV", "MinI", "MaxI", "MinV", "MaxV"}
	g.rng.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, op := range ops {
		switch op {
		case "IsNaN", "IsInf", "Copy", "ToArr":
			g.free(g.V(op, x, 0, nil))
		case "Eq":
			y := g.mkV("fvec", g.objs[x].prev[0])
			g.V(op, x, y, nil)
			g.drop(y)
		default:
			g.Q(op, x, 0)
		}
	}
}

// reaskV: answers are about the present, whatever was asked before and however
// the vector has changed since.
func (g *gen) reaskV() {
	for _, how := range vecChanges {
		for n := 1; n <= 4; n++ {
			n, how := n, how
			g.script(func() {
				x := g.mkV("vec", g.quarters(n))
				y := g.mkV("vec", g.quarters(n))
				for k := 0; k < 3 && g.tame(true); k++ {
					z := pickOf(g, []int{x, y})
					g.askV(x)
					g.askV(y)
					for _, op := range []string{"Dist", "L1Dist", "LInfDist", "Dot"} {
						g.Q(op, x, y)
					}
					g.V("Eq", x, y, nil)
					g.changeVOp(z, how)
					g.V("Eq", x, y, nil)
				}
				g.askV(x)
				g.askV(y)
			})
		}
	}
}

func (g *gen) unaryV(n int, val func() int) {
	for _, op := range []string{"MapAdd", "MapSub", "MapMul"} {
		for _, z := range []int{0, 16, val(), val()} {
			x := g.mkV("vec", vecOf(n, val))
			g.V(op, x, 0, nil, z)
			g.drop(x)
		}
	}
	for _, z := range []int{0, 16, -16, 32, 4, cPInf, cNaN, cNInf} {
		x := g.mkV("vec", vecOf(n, val))
		g.V("MapDiv", x, 0, nil, z)
		g.drop(x)
	}
	// quotients that are exact although the reciprocal is not
	for _, d := range []int{3, 7, 10, 41, 47, 49, 55, 61, -49} {
		q := func() int { return d * g.quarter() }
		x := g.mkV("vec", vecOf(n, q))
		g.V("MapDiv", x, 0, nil, 16*d)
		y := g.mkV("vec", vecOf(n, q))
		z := g.mkV(vecKinds[n%2], vecOf(n, func() int { return 16 * d }))
		g.free(g.V("EDiv", y, z, nil))
		g.drop(x, y, z)
	}
	for f := 1; f <= 4; f++ {
		x := g.mkV("vec", vecOf(n, val))
		g.V("Map", x, 0, []int{f})
		g.drop(x)
	}
	x := g.mkV("vec", vecOf(n, val))
	for _, op := range []string{"Copy", "ToArr", "Dim", "IsNaN", "IsInf", "Ref"} {
		g.free(g.V(op, x, 0, nil))
	}
	g.free(g.V("App", x, 0, nil, val()))
	for i := 0; i < n; i++ {
		g.V("At", x, 0, []int{i})
		g.V("Set", x, 0, []int{i}, val())
		g.V("AddTo", x, 0, []int{i}, val())
		for k := 1; k <= n-i; k++ {
			g.free(g.V("SubVec", x, 0, []int{i, k}))
			y := g.mkV(vecKinds[k%2], vecOf(k, val))
			g.V("SetSubVec", x, y, []int{i})
			a := g.raw1(vecOf(k, val))
			g.V("SetSubArr", x, a, []int{i})
			g.drop(y, a)
		}
	}
	g.V("Fill", x, 0, nil, val())
	g.V("Dim", x, 0, nil)
}

func (g *gen) binaryV(n int, k2 string, val func() int) {
	x := g.mkV("vec", vecOf(n, val))
	y := g.mkV(k2, vecOf(n, val))
	for _, op := range []string{"Add", "Subt", "EMul", "AppVec"} {
		g.free(g.V(op, x, y, nil))
	}
	z := g.mkV(k2, g.quarters(g.pick(4)))
	g.free(g.V("AppVec", x, z, nil))
	d := g.mkV(k2, vecOf(n, func() int {
		if g.pick(6) == 0 {
			return pickOf(g, []int{0, cNaN, cPInf, cNInf})
		}
		return pickOf(g, divisors)
	}))
	g.free(g.V("EDiv", x, d, nil))
	for _, c := range [][2]int{{16, 16}, {0, 16}, {16, 0}, {-32, 24}, {val(), val()}} {
		w := g.mkV("vec", vecOf(n, val))
		g.V("Comb", w, y, nil, c[0], c[1])
		g.drop(w)
	}
	w := g.mkV("vec", vecOf(n, val))
	g.V("CopyFrom", w, y, nil)
	g.V("Set", y, 0, []int{n - 1}, 400)
	g.Q("Dot", w, x)
}

// every pair of special and ordinary values
var pairVals = []int{0, 16, -16, 32, cNaN, cPInf, cNInf}

func lefts() []int {
	r := []int{}
	for _, a := range pairVals {
		for range pairVals {
			r = append(r, a)
		}
	}
	return r
}

func rights() []int {
	r := []int{}
	for range pairVals {
		r = append(r, pairVals...)
	}
	return r
}

func (g *gen) vectorPairs() {
	for _, k2 := range vecKinds {
		k2 := k2
		g.script(func() {
			x, y := g.mkV("vec", lefts()), g.mkV(k2, rights())
			for _, op := range []string{"Add", "Subt", "EMul", "EDiv"} {
				g.free(g.V(op, x, y, nil))
			}
			for _, a := range pairVals {
				for _, b := range []int{0, 16, -16, cPInf} {
					w := g.mkV("vec", lefts())
					g.V("Comb", w, y, nil, a, b)
					g.drop(w)
					w = g.mkV("vec", lefts())
					g.V("Comb", w, y, nil, b, a)
					g.drop(w)
				}
			}
		})
	}
	g.script(func() {
		for _, op := range []string{"MapAdd", "MapSub", "MapMul", "MapDiv"} {
			for _, z := range pairVals {
				x := g.mkV("vec", pairVals)
				g.V(op, x, 0, nil, z)
				g.drop(x)
			}
		}
		for _, z := range pairVals {
			x := g.mkV("vec", pairVals)
			for i := range pairVals {
				g.V("AddTo", x, 0, []int{i}, z)
			}
			g.drop(x)
		}
	})
}

// C07: entrywise operations.
func driveC07(g *gen) {
	g.reaskV()
	g.vectorPairs()
	for n := 1; n <= 5; n++ {
		n := n
		for _, val := range []func() int{func() int { return g.quarter() }, func() int { return g.special() }} {
			val := val
			g.script(func() { g.unaryV(n, val) })
			for _, k2 := range vecKinds {
				k2 := k2
				g.script(func() { g.binaryV(n, k2, val) })
			}
		}
		// the receiver as its own operand
		for _, val := range []func() int{g.quarter, g.special, g.hollow} {
			val := val
			g.script(func() {
				for k := 0; k < 3; k++ {
					for _, op := range []string{"Add", "Subt", "EMul", "EDiv", "AppVec", "Eq"} {
						x := g.mkV("vec", vecOf(n, val))
						g.free(g.V(op, x, x, nil))
						g.drop(x)
					}
					x := g.mkV("vec", vecOf(n, val))
					g.V("Comb", x, x, nil, 32, -16)
					g.V("CopyFrom", x, x, nil)
					g.V("SetSubVec", x, x, []int{0})
					g.free(g.V("AppVec", x, x, nil))
					g.V("Comb", x, x, nil, 0, 0)
					y := g.mkV("vec", vecOf(n, val))
					g.V("Comb", y, y, nil, 16, -16)
					g.drop(x, y)
				}
			})
		}
	}
	// entries of large magnitude next to small ones
	for n := 1; n <= 4; n++ {
		n := n
		g.script(func() { g.unaryV(n, g.broad) })
		for _, k2 := range vecKinds {
			k2 := k2
			g.script(func() { g.binaryV(n, k2, g.broad) })
		}
	}
	// long vectors
	for _, n := range []int{17, 53, 64, 105, 130, 300} {
		for _, op := range append([]string{"MapDiv", "MapAdd", "MapMul", "MapSub", "Map", "CopyFrom", "Comb"}, vecChanges...) {
			n, op := n, op
			g.script(func() {
				x := g.mkV("vec", g.quarters(n))
				g.changeVOp(x, op)
			})
		}
		for _, op := range vecResultOps {
			for _, k2 := range vecKinds {
				n, op, k2 := n, op, k2
				g.script(func() {
					x := g.mkV("vec", g.quarters(n))
					id, _ := g.deriveV(x, op, k2)
					g.free(id)
					g.V("Set", x, 0, []int{n - 1}, 400)
				})
			}
		}
		g.script(func() {
			x := g.mkV("vec", g.quarters(n))
			for _, i := range []int{n - 1, n / 2, 0} {
				for _, z := range specials {
					g.V("Set", x, 0, []int{i}, z)
					g.V("IsNaN", x, 0, nil)
					g.V("IsInf", x, 0, nil)
					g.V("Set", x, 0, []int{i}, 0)
				}
			}
		})
	}
	// length zero
	g.script(func() {
		x := need(g.N("VSized", 0, []int{0}))
		for _, op := range []string{"Copy", "ToArr", "Dim", "IsNaN", "IsInf"} {
			g.free(g.V(op, x, 0, nil))
		}
		for _, op := range []string{"MapAdd", "MapMul", "Fill"} {
			g.V(op, x, 0, nil, 16)
		}
		y := need(g.N("VSized", 0, []int{0}))
		for _, op := range []string{"Add", "Subt", "EMul", "EDiv", "AppVec"} {
			g.free(g.V(op, x, y, nil))
		}
		g.V("CopyFrom", x, y, nil)
		g.V("Comb", x, y, nil, 16, 16)
		g.free(g.V("App", x, 0, nil, 32))
		z := g.mkV("vec", g.quarters(2))
		g.free(g.V("AppVec", x, z, nil))
		g.free(g.V("AppVec", z, x, nil))
	})
	// parts of one storage, also overlapping
	for n := 2; n <= 6; n++ {
		n := n
		for rep := 0; rep < 4; rep++ {
			g.script(func() {
				a := g.raw1(g.quarters(n))
				win := func() int {
					o := g.pick(n)
					return need(g.N("VWin", a, []int{o, 1 + g.pick(n-o), 1}[:2+g.pick(2)]))
				}
				x := need(g.N("VArr", a, []int{0}))
				for k := 0; k < 8; k++ {
					y := win()
					m := g.vec(y).Dimension()
					g.V("SetSubVec", x, y, []int{g.pick(n - m + 1)})
					g.free(g.V("AppVec", x, y, nil))
					g.V("AddTo", y, 0, []int{g.pick(m)}, g.quarter())
					g.V("MapAdd", y, 0, nil, 16)
					g.free(g.V("Add", y, y, nil))
					g.drop(y)
				}
			})
		}
	}
	g.repeat(150, func() {
		n := 1 + g.pick(8)
		ids := []int{g.mkV("vec", g.quarters(n)), g.mkV("vec", g.quarters(n))}
		for k := 0; k < 40 && g.tame(true); k++ {
			x := pickOf(g, ids)
			switch g.pick(4) {
			case 0, 1:
				g.changeV(x)
			case 2:
				if n := g.vec(x).Dimension(); n > 0 {
					g.V("At", x, 0, []int{g.pick(n)})
				}
			case 3:
				id, y := g.deriveV(x, pickOf(g, vecResultOps), pickOf(g, vecKinds))
				if y != 0 {
					g.drop(y)
				}
				if id != 0 && g.objs[id].k == "vec" && len(ids) < 6 && g.vec(id).Dimension() < 20 {
					ids = append(ids, id)
				} else {
					g.free(id)
				}
			}
		}
	})
}

var measures1 = []string{"Norm", "L1", "LInfV", "MinI", "MaxI", "MinV", "MaxV", "Unit", "Unitize"}
var measures2 = []string{"Dist", "L1Dist", "LInfDist", "Dot", "Cos", "Proj"}

// C08: measures.
func driveC08(g *gen) {
	g.reaskV()
	all := func(n int, val func() int) {
		for _, k1 := range vecKinds {
			x := g.mkV(k1, vecOf(n, val))
			for _, op := range measures1 {
				g.Q(op, x, 0)
			}
			for _, k2 := range vecKinds {
				y := g.mkV(k2, vecOf(n, val))
				for _, op := range measures2 {
					g.Q(op, x, y)
					g.Q(op, y, x)
				}
				g.drop(y)
			}
			for _, op := range measures2 {
				g.Q(op, x, x)
			}
			g.drop(x)
		}
	}
	// every pair of values, also behind a third
	for _, k1 := range vecKinds {
		for _, k2 := range vecKinds {
			k1, k2 := k1, k2
			for _, a := range pairVals {
				a := a
				g.script(func() {
					for _, b := range pairVals {
						x, y := g.mkV(k1, []int{a}), g.mkV(k2, []int{b})
						u, v := g.mkV(k1, []int{32, a}), g.mkV(k2, []int{-16, b})
						for _, op := range measures2 {
							if (op == "Cos" || op == "Proj") && (a > cNaN || b > cNaN) {
								continue // no definition to hold them to
							}
							g.Q(op, x, y)
							g.Q(op, u, v)
						}
						if k1 == k2 {
							w := g.mkV(k1, []int{a, b})
							for _, op := range measures1 {
								if (op == "Unit" || op == "Unitize") && (a > cNaN || b > cNaN) {
									continue
								}
								g.Q(op, w, 0)
							}
							g.drop(w)
						}
						g.drop(x, y, u, v)
					}
				})
			}
		}
	}
	// every pattern of signs, zeros and ties up to length 3
	pat := []int{-16, 0, 16, 32}
	for n := 1; n <= 3; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(pat)
		}
		for lo := 0; lo < total; lo += 8 {
			n, lo, total := n, lo, total
			g.script(func() {
				for p := lo; p < lo+8 && p < total; p++ {
					q := p
					v := vecOf(n, func() int { d := pat[q%len(pat)]; q /= len(pat); return d })
					x := g.mkV(pickOf(g, vecKinds), v)
					for _, op := range measures1 {
						g.Q(op, x, 0)
					}
					y := g.mkV(pickOf(g, vecKinds), vecOf(n, func() int { return pickOf(g, pat) }))
					for _, op := range measures2 {
						g.Q(op, x, y)
					}
					g.drop(x, y)
				}
			})
		}
	}
	for n := 1; n <= 6; n++ {
		n := n
		for k := 0; k < 4; k++ {
			g.script(func() { all(n, g.quarter) })
		}
		// extrema among NaN and infinities
		for k := 0; k < 6; k++ {
			g.script(func() {
				x := g.mkV(pickOf(g, vecKinds), vecOf(n, func() int { return pickOf(g, []int{cNaN, cPInf, cNInf, 0, 16, -16, cNaN, 16}) }))
				for _, op := range []string{"MinI", "MaxI", "MinV", "MaxV"} {
					g.Q(op, x, 0)
				}
			})
		}
	}
	// and every pattern of those
	ext := []int{cNaN, cPInf, cNInf, 0, 16}
	for n := 1; n <= 3; n++ {
		for lo := 0; lo < pow(len(ext), n); lo += 25 {
			n, lo := n, lo
			g.script(func() {
				for p := lo; p < lo+25 && p < pow(len(ext), n); p++ {
					x := g.mkV(vecKinds[p%2], nth(1, n, ext, p)[0])
					for _, op := range []string{"MinI", "MaxI", "MinV", "MaxV"} {
						g.Q(op, x, 0)
					}
					g.drop(x)
				}
			})
		}
	}
	g.script(func() {
		x := need(g.N("VSized", 0, []int{0}))
		y := need(g.N("VSized", 0, []int{0}))
		for _, op := range []string{"Norm", "L1", "LInfV", "MinI", "MaxI", "MinV", "MaxV"} {
			g.Q(op, x, 0)
		}
		for _, op := range []string{"Dist", "L1Dist", "LInfDist", "Dot"} {
			g.Q(op, x, y)
		}
	})
	// sizes and dot products of every pattern of those
	for n := 1; n <= 3; n++ {
		ext := append([]int{-32}, ext...)
		for lo := 0; lo < pow(len(ext), n); lo += 12 {
			n, lo := n, lo
			g.script(func() {
				for p := lo; p < lo+12 && p < pow(len(ext), n); p++ {
					x := g.mkV(vecKinds[p%2], nth(1, n, ext, p)[0])
					for _, op := range []string{"Norm", "L1", "LInfV"} {
						g.Q(op, x, 0)
					}
					for _, op := range []string{"Dist", "L1Dist", "LInfDist", "Dot"} {
						g.Q(op, x, x)
					}
					if hasNaN(entries(g.vec(x))) {
						y := g.mkV(pickOf(g, vecKinds), vecOf(n, func() int { return pickOf(g, ext) }))
						for _, op := range []string{"Cos", "Proj", "Unit", "Unitize"} {
							g.Q(op, x, y)
							g.Q(op, x, x)
							if op[0] != 'U' {
								g.Q(op, y, x)
							}
						}
						g.drop(y)
					}
					for k := 0; k < 3; k++ {
						y := g.mkV(pickOf(g, vecKinds), vecOf(n, func() int { return pickOf(g, ext) }))
						for _, op := range []string{"Dist", "L1Dist", "LInfDist", "Dot"} {
							g.Q(op, x, y)
							g.Q(op, y, x)
						}
						g.drop(y)
					}
					g.drop(x)
				}
			})
		}
	}
	for _, kind := range []string{"arr", "blk", "fmat"} {
		kind := kind
		g.script(func() {
			for k := 0; k < 12; k++ {
				n, m := 1+g.pick(3), 1+g.pick(3)
				id := g.mkM(kind, matOf(n, m, g.quarter))
				g.M("Set", id, 0, []int{g.pick(n), g.pick(m)}, pickOf(g, []int{cNaN, cPInf, cNInf}))
				g.Q("Frob", id, 0)
				g.M("Set", id, 0, []int{g.pick(n), g.pick(m)}, pickOf(g, []int{cNaN, cPInf, cNInf}))
				g.Q("Frob", id, 0)
				g.drop(id)
			}
		})
	}
	// the same at other scales
	for n := 1; n <= 5; n++ {
		for _, z := range []int{-400, -60, -24, -7, 7, 24, 60, 400} {
			n, z := n, z
			g.script(func() {
				for k := 0; k < 2; k++ {
					x := g.mkV(pickOf(g, vecKinds), g.quarters(n))
					y := g.mkV(pickOf(g, vecKinds), g.quarters(n))
					for _, op := range measures1 {
						g.QZ(op, x, 0, z)
					}
					for _, op := range measures2 {
						g.QZ(op, x, y, z)
					}
					g.drop(x, y)
				}
				id := g.mk(pickOf(g, matKinds), n, n)
				g.QZ("Frob", id, 0, z)
			})
		}
	}
	// lengths that do not match
	g.script(func() {
		for a := 1; a <= 3; a++ {
			for b := 1; b <= 3; b++ {
				x := g.mkV(vecKinds[a%2], vecOf(a, func() int { return 16 * (1 + g.pick(3)) }))
				y := g.mkV(vecKinds[b%2], vecOf(b, func() int { return 16 * (1 + g.pick(3)) }))
				for _, op := range measures2 {
					g.Q(op, x, y)
				}
				g.drop(x, y)
			}
		}
	})
	// matrices
	for _, kind := range matKinds {
		for _, sh := range g.shapesFor(kind, 3, true) {
			kind, sh := kind, sh
			g.script(func() {
				id := g.mk(kind, sh.r, sh.c)
				g.Q("Frob", id, 0)
				g.M("LInf", id, 0, nil)
				g.M("Trace", id, 0, nil)
			})
		}
	}
	g.repeat(120, func() {
		n := 1 + g.pick(20)
		scale := pickOf(g, []int{4, 16, 64, 256})
		all(n, func() int { return scale * (g.pick(65) - 32) })
	})
	// changes between measures: the answer is about the present
	g.repeat(40, func() {
		n := 1 + g.pick(5)
		x, y := g.mkV("vec", g.quarters(n)), g.mkV("vec", g.quarters(n))
		for k := 0; k < 15 && g.tame(true); k++ {
			g.changeV(pickOf(g, []int{x, y}))
			g.Q(pickOf(g, measures1), x, 0)
			g.Q(pickOf(g, measures2), x, y)
		}
	})
}

// C09: equality.
func driveC09(g *gen) {
	g.reaskV()
	eq := func(a, b int) {
		g.M("Eq", a, b, nil)
	}
	for _, k1 := range matKinds {
		for _, k2 := range operandKinds {
			for _, sh := range append(smallShapes(3), shape{53, 2}, shape{2, 105}, shape{53, 53}) {
				k1, k2, sh := k1, k2, sh
				if (k1 == "diag" || k2 == "diag") && sh.r != sh.c {
					continue
				}
				if sh.r*sh.c > 1000 && (k1 == "diag" || k2 == "fmat") {
					continue
				}
				g.script(func() {
					m := matOf(sh.r, sh.c, g.quarter)
					if k1 == "diag" || k2 == "diag" {
						for i := range m {
							for j := range m[i] {
								if i != j {
									m[i][j] = 0
								}
							}
						}
					}
					x, y := g.mkM(k1, m), g.mkM(k2, m)
					both := func() {
						eq(x, y)
						if k2 != "fmat" {
							eq(y, x)
						}
					}
					both()
					for _, i := range hot(sh.r) {
						for _, j := range hot(sh.c) {
							if (k1 == "diag" || k2 == "diag") && i != j {
								// only one of the two can differ there
								z := y
								if k2 == "diag" {
									z = x
								}
								if k1 != k2 && (sh.r <= 3 || g.pick(3) == 0) {
									for _, d := range []int{pickOf(g, []int{16, -16, 4, cTPos, cTNeg}), pickOf(g, specials), 0} {
										g.M("Set", z, 0, []int{i, j}, d)
										both()
									}
								}
								continue
							}
							if sh.r*sh.c > 100 && g.pick(4) > 0 {
								continue
							}
							old := g.objs[x].prev[i][j]
							z := pickOf(g, []int{x, y})
							d := old + pickOf(g, []int{1, -1, 16, 32})
							if old == cNaN || g.pick(12) == 0 {
								d = pickOf(g, specials)
							}
							if g.pick(6) == 0 {
								// two numbers hard to tell apart
								p := pickOf(g, [][]int{{16, cOneUp}, {0, cTPos}, {0, cTNeg}, {cTPos, cTNeg}})
								g.M("Set", z, 0, []int{i, j}, p[0])
								g.M("Set", x+y-z, 0, []int{i, j}, p[0])
								both()
								g.M("Set", z, 0, []int{i, j}, p[1])
								both()
								g.M("Set", x+y-z, 0, []int{i, j}, p[1])
								both()
							}
							g.M("Set", z, 0, []int{i, j}, d)
							both()
							if g.pick(4) == 0 && sh.r*sh.c <= 9 {
								// the same on the other side
								g.M("Set", x+y-z, 0, []int{i, j}, d)
								both()
							}
							g.M("Set", z, 0, []int{i, j}, old)
							g.M("Set", x+y-z, 0, []int{i, j}, old)
							both()
						}
					}
				})
			}
		}
	}
	// shapes
	for _, k1 := range matKinds {
		k1 := k1
		for _, a := range append(smallShapes(3), shape{53, 2}, shape{2, 53}) {
			a := a
			if k1 == "diag" && a.r != a.c {
				continue
			}
			g.script(func() {
				zero := func() int { return 0 }
				x := g.mkM(k1, matOf(a.r, a.c, zero))
				for _, b := range append(smallShapes(3), shape{54, 2}, shape{53, 2}, shape{2, 53}) {
					for _, k2 := range operandKinds {
						if k2 == "diag" && b.r != b.c {
							continue
						}
						y := g.mkM(k2, matOf(b.r, b.c, zero))
						eq(x, y)
						g.drop(y)
					}
				}
				// not a matrix
				v := g.mkV("vec", g.quarters(2))
				r1, r2 := g.raw1([]int{0}), g.raw2(matOf(a.r, a.c, zero))
				for _, y := range []int{v, r1, r2, 0} {
					eq(x, y)
				}
				for _, y := range []int{x, r1, r2, 0} {
					g.V("Eq", v, y, nil)
				}
				eq(x, x)
			})
		}
	}
	// vectors
	pats := []int{0, 16, cOneUp, cNaN, cPInf, cNInf, cTNeg, -16}
	for n := 1; n <= 2; n++ {
		total := 8
		if n == 2 {
			total = 64
		}
		for p := 0; p < total; p++ {
			n, p := n, p
			g.script(func() {
				q := p
				dig := func() int { d := pats[q%8]; q /= 8; return d }
				x := g.mkV("vec", vecOf(n, dig))
				for r := 0; r < total; r++ {
					q = r
					y := g.mkV(pickOf(g, vecKinds), vecOf(n, dig))
					g.V("Eq", x, y, nil)
					if g.objs[y].k == "vec" {
						g.V("Eq", y, x, nil)
					}
					g.drop(y)
				}
				for m := 0; m <= 3; m++ {
					y := g.mkV(pickOf(g, vecKinds), vecOf(m, func() int { return pickOf(g, pats) }))
					g.V("Eq", x, y, nil)
					g.drop(y)
				}
				g.V("Eq", x, x, nil)
				g.V("Eq", x, 0, nil)
			})
		}
	}
	g.repeat(100, func() {
		n := 1 + g.pick(6)
		v := g.quarters(n)
		x, y := g.mkV("vec", v), g.mkV(pickOf(g, vecKinds), v)
		for k := 0; k < 12; k++ {
			g.V("Eq", x, y, nil)
			i := g.pick(n)
			g.V("Set", pickOf(g, []int{x, y}), 0, []int{i}, pickOf(g, []int{v[i], v[i], v[i] + 1, g.quarter(), cNaN}))
		}
	})
	g.repeat(100, func() {
		r, c := 1+g.pick(4), 1+g.pick(4)
		k1, k2 := pickOf(g, denseKinds), pickOf(g, denseKinds)
		m := matOf(r, c, g.quarter)
		x, y := g.mkM(k1, m), g.mkM(k2, m)
		for k := 0; k < 12; k++ {
			eq(x, y)
			eq(y, x)
			i, j := g.pick(r), g.pick(c)
			g.M("Set", pickOf(g, []int{x, y}), 0, []int{i, j}, pickOf(g, []int{m[i][j], m[i][j], m[i][j] + 1, g.quarter(), cPInf}))
		}
	})
}

// C10: construction and selection.
func driveC10(g *gen) {
	for _, k1 := range vecKinds {
		for _, k2 := range vecKinds {
			k1, k2 := k1, k2
			g.script(func() {
				g.free(g.do(&ev{T: "N", Op: "Outer", Y: g.mkV(k1, pairVals), Z: g.mkV(k2, pairVals)}))
			})
		}
	}
	dims := []int{1, 2, 3, 51, 52, 53, 54}
	for _, op := range []string{"Dims", "ArrDims", "BlkDims"} {
		for _, a := range dims {
			for _, b := range append(dims, 105) {
				if a > 3 && b > 3 && (a+b)%3 != 0 {
					continue
				}
				op, a, b := op, a, b
				g.script(func() {
					id := g.N(op, 0, []int{a, b})
					if id != 0 {
						g.M("Dims", id, 0, nil)
						g.M("Set", id, 0, []int{a - 1, b - 1}, 16)
					}
				})
			}
		}
	}
	// around the size at which the general factories change representation
	for _, sh := range []shape{{64, 64}, {64, 65}, {1, 4096}, {1, 4097}, {4097, 1}, {63, 65}, {65, 65}} {
		sh := sh
		for _, op := range []string{"Dims", "Slices"} {
			op := op
			g.script(func() {
				if op == "Dims" {
					g.N(op, 0, []int{sh.r, sh.c})
					return
				}
				a := g.raw2(matOf(sh.r, sh.c, g.quarter))
				g.N(op, a, nil)
			})
		}
	}
	for _, n := range []int{1, 2, 3, 52, 53, 64, 65, 70} {
		n := n
		g.script(func() {
			g.free(g.N("Id", 0, []int{n}))
			g.free(g.N("DiagDim", 0, []int{n}))
			a := g.raw1(g.quarters(n))
			for _, op := range []string{"WithDiag", "RealDiag", "DiagSlice"} {
				g.free(g.N(op, a, nil))
			}
			g.free(g.N("Diag", a, []int{0}))
			g.free(g.N("Diag", a, []int{1}))
			g.free(g.N("ArrCol", a, nil))
			for _, op := range []string{"VSlice", "VReal"} {
				g.free(g.N(op, a, nil))
			}
			g.free(g.N("VArr", a, []int{0}))
			g.free(g.N("VArr", a, []int{1}))
			g.free(g.N("VSized", 0, []int{n}))
			g.free(g.N("VPreset", 0, []int{n}, g.quarter()))
			for _, z := range []int{-32000, 32000, cNaN, cPInf, cNInf, 0} {
				g.free(g.N("VPreset", 0, []int{n}, z))
			}
			for _, k := range vecKinds {
				y, z := g.mkV(k, g.quarters(n)), g.mkV(pickOf(g, vecKinds), g.quarters(1+g.pick(5)))
				g.free(g.N("VCopy", y, nil))
				g.free(g.do(&ev{T: "N", Op: "VTwo", Y: y, Z: z}))
				g.free(g.do(&ev{T: "N", Op: "VTwo", Y: z, Z: y}))
				if k == "vec" {
					w := g.mkV("vec", g.quarters(2))
					g.free(g.do(&ev{T: "N", Op: "VTwoArr", Y: y, Z: w}))
				}
				g.drop(y, z)
			}
			y, z := g.mkV(pickOf(g, vecKinds), g.quarters(n)), g.mkV(pickOf(g, vecKinds), g.quarters(1+g.pick(4)))
			g.free(g.do(&ev{T: "N", Op: "Outer", Y: y, Z: z}))
			g.free(g.do(&ev{T: "N", Op: "Outer", Y: z, Z: y}))
			g.free(g.do(&ev{T: "N", Op: "Outer", Y: y, Z: y}))
			g.free(g.do(&ev{T: "N", Op: "Outer", Y: z, Z: z}))
			g.free(g.do(&ev{T: "N", Op: "VTwo", Y: y, Z: y}))
			for _, val := range []func() int{g.special, g.hollow} {
				u := vecOf(n, val)
				v, w := g.mkV(pickOf(g, vecKinds), u), g.mkV(pickOf(g, vecKinds), u)
				t := g.mkV(pickOf(g, vecKinds), vecOf(1+g.pick(4), val))
				for _, p := range [][2]int{{v, w}, {v, v}, {w, w}, {v, t}, {t, w}, {y, v}, {v, z}} {
					g.free(g.do(&ev{T: "N", Op: "Outer", Y: p[0], Z: p[1]}))
				}
				g.drop(v, w, t)
			}
		})
	}
	// beyond three blocks of rows
	for _, n := range []int{104, 105, 157, 160} {
		n := n
		g.script(func() {
			g.free(g.N("Id", 0, []int{n}))
			g.free(g.N("DiagDim", 0, []int{n}))
			a := g.raw1(g.quarters(n))
			for _, op := range []string{"WithDiag", "RealDiag", "DiagSlice", "ArrCol", "VSlice", "VReal"} {
				g.free(g.N(op, a, nil))
			}
			g.free(g.N("Diag", a, []int{g.pick(2)}))
			g.free(g.N("VPreset", 0, []int{n}, g.quarter()))
			for _, z := range []int{-32000, 32000, cNaN, cPInf, cNInf, 0} {
				g.free(g.N("VPreset", 0, []int{n}, z))
			}
			y, z := g.mkV(pickOf(g, vecKinds), g.quarters(n)), g.mkV(pickOf(g, vecKinds), g.quarters(1+g.pick(3)))
			g.free(g.do(&ev{T: "N", Op: "VTwo", Y: y, Z: y}))
			g.free(g.do(&ev{T: "N", Op: "VTwo", Y: z, Z: y}))
			g.free(g.do(&ev{T: "N", Op: "Outer", Y: y, Z: z}))
			g.free(g.do(&ev{T: "N", Op: "Outer", Y: z, Z: y}))
		})
	}
	for _, sh := range append(smallShapes(4), edgeShapes...) {
		sh := sh
		g.script(func() {
			m := matOf(sh.r, sh.c, g.quarter)
			a := g.raw2(m)
			for _, op := range []string{"Slices", "BlkSlices"} {
				g.free(g.N(op, a, nil))
			}
			g.free(g.N("ArrSlices", a, []int{1}))
			if sh.r*sh.c < 400 {
				g.free(g.N("ArrSlices", a, []int{0}))
			}
			g.drop(a)
			b := g.raw2(toBlocks(m))
			g.free(g.N("BlkData", b, []int{sh.r, sh.c}))
		})
	}
	// selections
	for _, kind := range matKinds {
		for _, sh := range g.shapesFor(kind, 3, true) {
			kind, sh := kind, sh
			g.script(func() {
				id := g.mk(kind, sh.r, sh.c)
				for k := 0; k < 8; k++ {
					a, b := g.rangeOf(sh.r)
					c, d := g.rangeOf(sh.c)
					if b-a > 20 {
						b = a + g.pick(3)
					}
					if k == 0 {
						a, b, c, d = 0, sh.r-1, 0, sh.c-1
					}
					g.free(g.M("Sub", id, 0, []int{a, b, c, d}))
					y := g.raw2(matOf(b-a+1+g.pick(2), d-c+1+g.pick(2), g.quarter))
					g.M("CopySub", id, y, []int{a, b, c, d})
					g.drop(y)
					rs := vecOf(1+g.pick(4), func() int { return g.hotOf(sh.r) })
					cs := vecOf(1+g.pick(4), func() int { return g.hotOf(sh.c) })
					e := g.ev("M", "Select", id, 0, nil)
					e.RS, e.CS = rs, cs
					g.free(g.do(e))
					y = g.raw2(matOf(len(rs)+g.pick(2), len(cs)+g.pick(2), g.quarter))
					e = g.ev("M", "CopySel", id, y, nil)
					e.RS, e.CS = rs, cs
					g.do(e)
					g.drop(y)
				}
			})
		}
	}
	// every range of small matrices
	for _, kind := range denseKinds {
		for _, sh := range []shape{{3, 3}, {2, 4}, {4, 2}} {
			kind, sh := kind, sh
			g.script(func() {
				id := g.mk(kind, sh.r, sh.c)
				for a := 0; a < sh.r; a++ {
					for b := a; b < sh.r; b++ {
						for c := 0; c < sh.c; c++ {
							for d := c; d < sh.c; d++ {
								g.free(g.M("Sub", id, 0, []int{a, b, c, d}))
								y := g.raw2(matOf(b-a+1+g.pick(2), d-c+1+g.pick(2), g.quarter))
								g.M("CopySub", id, y, []int{a, b, c, d})
								g.drop(y)
							}
						}
					}
				}
			})
		}
	}
	// block-ordered submatrices of larger matrices
	g.repeat(10, func() {
		r, c := 53+g.pick(60), 53+g.pick(60)
		id := g.mk("blk", r, c)
		for k := 0; k < 4; k++ {
			a, b := g.rangeOf(r)
			p, q := g.rangeOf(c)
			g.free(g.M("Sub", id, 0, []int{a, b, p, q}))
		}
	})
	g.repeat(80, func() {
		kind := pickOf(g, denseKinds)
		sh := shape{1 + g.pick(7), 1 + g.pick(7)}
		id := g.mk(kind, sh.r, sh.c)
		for k := 0; k < 6; k++ {
			e := g.ev("M", "Select", id, 0, nil)
			e.RS = vecOf(1+g.pick(8), func() int { return g.pick(sh.r) })
			e.CS = vecOf(1+g.pick(8), func() int { return g.pick(sh.c) })
			g.free(g.do(e))
		}
	})
}

// toBlocks lays a matrix out in blocks of 52, as block-ordered data.
func toBlocks(m [][]int) [][]int {
	r, c := len(m), len(m[0])
	var out [][]int
	for i := 0; i < r; i += 52 {
		for j := 0; j < c; j += 52 {
			var b []int
			for p := i; p < i+52 && p < r; p++ {
				for q := j; q < j+52 && q < c; q++ {
					b = append(b, m[p][q])
				}
			}
			out = append(out, b)
		}
	}
	return out
}

func (g *gen) vwalk(x int, ord string, upd int, op string, a []int) {
	e := &ev{T: "VW", Op: op, X: x, I: a, Upd: upd, Ord: ord, Fin: g.quarter()}
	if a != nil {
		e.Bnd = 1
	}
	g.do(e)
}

// C22: vector traversals and iterators.
func driveC22(g *gen) {
	for n := 1; n <= 6; n++ {
		for _, ord := range []string{"def", "opt"} {
			for upd := 0; upd < 2; upd++ {
				for _, op := range []string{"u1", "u2"} {
					n, ord, upd, op := n, ord, upd, op
					g.script(func() {
						x := g.mkV("vec", g.quarters(n))
						g.vwalk(x, ord, upd, op, nil)
						for a := 0; a < n; a++ {
							for b := a; b < n; b++ {
								g.vwalk(x, ord, upd, op, []int{a, b})
							}
						}
					})
				}
			}
		}
	}
	// visitors that write to the vector and read from it as they go
	for n := 1; n <= 6; n++ {
		for _, ord := range []string{"def", "opt"} {
			for upd := 0; upd < 2; upd++ {
				n, ord, upd := n, ord, upd
				g.script(func() {
					x := g.mkV("vec", g.quarters(n))
					for z := 0; z < 6; z++ {
						e := &ev{T: "VW", Op: "re", X: x, Upd: upd, Ord: ord, Fin: 16, Z: z}
						if z%3 > 0 {
							p, q := g.rangeOf(n)
							e.I, e.Bnd = []int{p, q}, 1
						}
						g.do(e)
					}
				})
			}
		}
	}
	for n := 1; n <= 5; n++ {
		for _, ord := range []string{"def", "opt"} {
			n, ord := n, ord
			g.script(func() {
				x := g.mkV("vec", g.quarters(n))
				for upd := 0; upd < 2; upd++ {
					for z := 0; z <= n; z++ {
						e := &ev{T: "VW", Op: "bk", X: x, Upd: upd, Ord: ord, Fin: 16, Z: z}
						if z%2 == upd {
							p, q := g.rangeOf(n)
							e.I, e.Bnd = []int{p, q}, 1
						}
						g.do(e)
					}
					g.vwalk(x, ord, 1, "u2", nil)
				}
			})
		}
	}
	step := func(x, it int) { g.do(&ev{T: "V", Op: "Next", X: x, Z: it}) }
	has := func(x, it int) { g.do(&ev{T: "V", Op: "HasNext", X: x, Z: it}) }
	again := func(x, it int) { g.do(&ev{T: "V", Op: "Entry", X: x, Z: it, I: []int{g.pick(10)}}) }
	for n := 0; n <= 4; n++ {
		for _, k := range vecKinds {
			n, k := n, k
			g.script(func() {
				x := g.mkV(k, vecOf(n, g.special))
				for i := 0; i < n; i++ {
					has(x, 1)
					step(x, 1)
				}
				has(x, 1)
				step(x, 1)
				step(x, 1)
				has(x, 1)
				if n > 0 {
					again(x, 1)
					g.V("Set", x, 0, []int{g.pick(n)}, g.quarter())
					again(x, 1)
					again(x, 1)
				}
				// without asking first, and two at once
				for i := 0; i <= n; i++ {
					step(x, 2)
					if i%2 == 0 {
						step(x, 3)
						has(x, 3)
					}
				}
			})
		}
	}
	g.repeat(150, func() {
		n := 1 + g.pick(6)
		x := g.mkV("vec", g.quarters(n))
		given := map[int]bool{}
		for k := 0; k < 25 && g.tame(true); k++ {
			switch g.pick(6) {
			case 0, 1:
				it := g.pick(3)
				step(x, it)
				given[it] = true
			case 5:
				if it := g.pick(3); given[it] {
					again(x, it)
				}
			case 2:
				has(x, g.pick(3))
			case 3:
				g.changeV(x)
			case 4:
				var a []int
				if g.pick(2) == 0 {
					p, q := g.rangeOf(n)
					a = []int{p, q}
				}
				g.vwalk(x, pickOf(g, []string{"def", "opt"}), g.pick(2), pickOf(g, []string{"u1", "u2"}), a)
			}
		}
	})
	g.script(func() {
		x := g.mkV("vec", g.quarters(200))
		for _, ord := range []string{"def", "opt"} {
			for upd := 0; upd < 2; upd++ {
				g.vwalk(x, ord, upd, "u1", nil)
				g.vwalk(x, ord, upd, "u2", []int{17, 140})
			}
		}
	})
}

// C23: limits of every argument of vector requests.
func driveC23(g *gen) {
	for n := 1; n <= 4; n++ {
		n := n
		idx := []int{-1000, -2, -1, 0, 1, n - 1, n, n + 1, 1000}
		g.script(func() {
			x := g.mkV("vec", g.quarters(n))
			for _, i := range idx {
				g.V("At", x, 0, []int{i})
				g.V("Set", x, 0, []int{i}, g.quarter())
				g.V("AddTo", x, 0, []int{i}, g.quarter())
			}
		})
		g.script(func() {
			x := g.mkV("vec", g.quarters(n))
			for _, i := range idx {
				for k := -2; k <= n+2; k++ {
					if k == 0 {
						continue
					}
					g.free(g.V("SubVec", x, 0, []int{i, k}))
					if k > 0 {
						for _, kind := range vecKinds {
							y := g.mkV(kind, g.quarters(k))
							g.V("SetSubVec", x, y, []int{i})
							g.drop(y)
						}
						a := g.raw1(g.quarters(k))
						g.V("SetSubArr", x, a, []int{i})
						g.drop(a)
					}
				}
			}
		})
		for m := 0; m <= 5; m++ {
			m := m
			g.script(func() {
				x := g.mkV("vec", g.quarters(n))
				for _, kind := range vecKinds {
					y := g.mkV(kind, vecOf(m, func() int { return pickOf(g, divisors) }))
					for _, op := range []string{"Add", "Subt", "EMul", "EDiv", "AppVec"} {
						g.free(g.V(op, x, y, nil))
					}
					if m != n {
						g.V("CopyFrom", x, y, nil)
						g.V("Comb", x, y, nil, 16, 32)
					}
					for _, op := range []string{"Dist", "L1Dist", "LInfDist", "Dot"} {
						g.Q(op, x, y)
					}
					if m > 0 {
						g.Q("Cos", x, y)
						g.Q("Proj", x, y)
					}
					if m == n {
						g.V("CopyFrom", x, y, nil)
						g.V("Comb", x, y, nil, 16, 32)
					}
					g.drop(y)
				}
			})
		}
		for _, ord := range []string{"def", "opt"} {
			for upd := 0; upd < 2; upd++ {
				ord, upd := ord, upd
				g.script(func() {
					x := g.mkV("vec", g.quarters(n))
					for _, a := range idx {
						for _, b := range idx {
							g.vwalk(x, ord, upd, "u1", []int{a, b})
						}
					}
				})
			}
		}
	}
	g.script(func() {
		for _, n := range []int{-3, -1, 0, 1, 2} {
			g.free(g.N("VSized", 0, []int{n}))
			g.free(g.N("VPreset", 0, []int{n}, 16))
		}
		for _, op := range []string{"VSlice", "VReal", "VCopy"} {
			g.free(g.N(op, 0, nil))
		}
		g.free(g.N("VArr", 0, []int{0}))
		g.free(g.N("VArr", 0, []int{1}))
		x := g.mkV("vec", g.quarters(2))
		for _, op := range []string{"VTwo", "VTwoArr"} {
			g.free(g.do(&ev{T: "N", Op: op, Y: x}))
			g.free(g.do(&ev{T: "N", Op: op, Z: x}))
			g.free(g.do(&ev{T: "N", Op: op}))
			g.free(g.do(&ev{T: "N", Op: op, Y: x, Z: x}))
		}
	})
	g.repeat(80, func() {
		n := 1 + g.pick(5)
		x := g.mkV("vec", g.quarters(n))
		wild := func() int { return g.pick(n+4) - 2 }
		for k := 0; k < 30 && g.tame(true); k++ {
			switch g.pick(6) {
			case 0:
				g.V(pickOf(g, []string{"At", "Set", "AddTo"}), x, 0, []int{wild()}, g.quarter())
			case 1:
				ln := g.pick(n+3) - 1
				if ln == 0 {
					ln = 1
				}
				g.free(g.V("SubVec", x, 0, []int{wild(), ln}))
			case 2:
				y := g.mkV(pickOf(g, vecKinds), g.quarters(1+g.pick(n+1)))
				g.V("SetSubVec", x, y, []int{wild()})
				g.drop(y)
			case 3:
				y := g.mkV(pickOf(g, vecKinds), g.quarters(1+g.pick(n+1)))
				op := pickOf(g, []string{"CopyFrom", "Add", "EMul"})
				g.free(g.V(op, x, y, nil))
				g.drop(y)
			case 4:
				g.vwalk(x, pickOf(g, []string{"def", "opt"}), g.pick(2), "u1", []int{wild(), wild()})
				g.changeVOp(x, "Fill")
			case 5:
				g.changeV(x)
			}
		}
	})
}

func hasNaN(x []float64) bool {
	for _, f := range x {
		if math.IsNaN(f) {
			return true
		}
	}
	return false
}
