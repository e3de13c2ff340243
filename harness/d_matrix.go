package main

func init() {
	drivers["C01"] = driveC01
	drivers["C02"] = driveC02
	drivers["C03"] = driveC03
	drivers["C04"] = driveC04
	drivers["C05"] = driveC05
	drivers["C06"] = driveC06
}

type shape struct{ r, c int }

func smallShapes(n int) []shape {
	var s []shape
	for r := 1; r <= n; r++ {
		for c := 1; c <= n; c++ {
			s = append(s, shape{r, c})
		}
	}
	return s
}

// Shapes that straddle or touch block borders.
var edgeShapes = []shape{{52, 52}, {53, 53}, {52, 54}, {54, 52}, {1, 53}, {53, 1}, {2, 105}, {105, 2}, {104, 3}, {3, 104}, {54, 106}, {105, 53}, {51, 52}, {2, 158}, {158, 2}}

// Positions on both sides of every block border (within n).
func hot(n int) []int {
	var p []int
	for _, i := range []int{0, 1, 50, 51, 52, 53, 103, 104, 105, n / 2, n - 2, n - 1} {
		if i < 0 || i >= n {
			continue
		}
		dup := false
		for _, q := range p {
			dup = dup || q == i
		}
		if !dup {
			p = append(p, i)
		}
	}
	return p
}

func (g *gen) hotOf(n int) int {
	if g.pick(2) == 0 {
		return g.pick(n)
	}
	return pickOf(g, hot(n))
}

// a non-empty range within n
func (g *gen) rangeOf(n int) (int, int) {
	a, b := g.hotOf(n), g.hotOf(n)
	if a > b {
		a, b = b, a
	}
	return a, b
}

var matKinds = []string{"arr", "blk", "diag"}
var denseKinds = []string{"arr", "blk"}

var writeRoutes = []string{"Set", "AddTo", "MulTo", "SetRow", "SetCol", "SetRowVec", "SetColVec", "SetRowMat", "SetColMat", "SetSub"}
var readRoutes = []string{"At", "Row", "Col", "RowVec", "ColVec", "RowMat", "ColMat", "Sub", "Data", "Dims", "Copy"}

func (g *gen) write(id int, route string, i, j int) {
	r, c := g.dims(id)
	diag := g.objs[id].k == "diag"
	// a diagonal matrix takes a row whose other entries are zero
	val := func(n, at int) []int {
		v := vecOf(n, g.quarter)
		if diag && g.pick(8) > 0 {
			for k := range v {
				if k != at {
					v[k] = 0
				}
			}
		}
		return v
	}
	switch route {
	case "Set", "AddTo":
		v := g.quarter()
		if diag && i != j && g.pick(2) == 0 {
			v = 0
		}
		g.M(route, id, 0, []int{i, j}, v)
	case "MulTo":
		g.M(route, id, 0, []int{i, j}, pickOf(g, []int{-16, 0, 32, 48, 16}))
	case "SetRow":
		a := g.raw1(val(c, i))
		g.M(route, id, a, []int{i})
		g.spent(a)
	case "SetCol":
		a := g.raw1(val(r, j))
		g.M(route, id, a, []int{j})
		g.spent(a)
	case "SetRowVec":
		a := g.mkV(pickOf(g, []string{"vec", "fvec"}), val(c, i))
		g.M(route, id, a, []int{i})
		g.spent(a)
	case "SetColVec":
		a := g.mkV(pickOf(g, []string{"vec", "fvec"}), val(r, j))
		g.M(route, id, a, []int{j})
		g.spent(a)
	case "SetRowMat":
		a := g.mkM(pickOf(g, []string{"arr", "blk", "fmat"}), [][]int{val(c, i)})
		g.M(route, id, a, []int{i})
		g.spent(a)
	case "SetColMat":
		v := val(r, j)
		m := make([][]int, r)
		for k := range m {
			m[k] = v[k : k+1]
		}
		a := g.mkM(pickOf(g, []string{"arr", "blk", "fmat"}), m)
		g.M(route, id, a, []int{j})
		g.spent(a)
	case "SetSub":
		r1, c1 := i+g.pick(r-i), j+g.pick(c-j)
		if g.pick(3) == 0 {
			r1, c1 = r-1, c-1
		}
		if r1-i > 60 {
			r1 = i + 60
		}
		m := matOf(r1-i+1, c1-j+1, g.quarter)
		if diag && g.pick(4) > 0 {
			for a := range m {
				for b := range m[a] {
					if i+a != j+b {
						m[a][b] = 0
					}
				}
			}
		}
		a := g.raw2(m)
		g.M(route, id, a, []int{i, j})
		g.spent(a)
	}
}

// spent says what becomes of an argument after it was used: most are
// forgotten; some stay, and are written to now and again, which must not
// reach what was made with them.
func (g *gen) spent(a int) {
	if g.kept != nil {
		g.kept(a)
		return
	}
	if len(g.linger) > 0 && g.pick(6) == 0 {
		g.poke(pickOf(g, g.linger))
	}
	if o := g.objs[a]; len(g.linger) < 3 && g.pick(8) == 0 && o != nil && size(o) <= 400 {
		g.linger = append(g.linger, a)
		return
	}
	g.drop(a)
}

func (g *gen) read(id int, route string, i, j int) {
	r, c := g.dims(id)
	var x int
	switch route {
	case "At":
		g.M(route, id, 0, []int{i, j})
	case "Row", "RowVec", "RowMat":
		x = g.M(route, id, 0, []int{i})
	case "Col", "ColVec", "ColMat":
		x = g.M(route, id, 0, []int{j})
	case "Sub":
		r1, c1 := i+g.pick(r-i), j+g.pick(c-j)
		x = g.M(route, id, 0, []int{i, r1, j, c1})
	default:
		x = g.M(route, id, 0, nil)
	}
	g.free(x)
}

func (g *gen) shapesFor(kind string, small int, edges bool) []shape {
	var s []shape
	for _, x := range append(smallShapes(small), edgeShapes...) {
		if x.r > small || x.c > small {
			if !edges || (kind == "arr" && x.r*x.c > 400) {
				continue
			}
		}
		if kind == "diag" && x.r != x.c {
			continue
		}
		s = append(s, x)
	}
	return s
}

// C01: every write route at every position, every read route after it.
func driveC01(g *gen) {
	for _, kind := range matKinds {
		for _, sh := range g.shapesFor(kind, 3, true) {
			for _, w := range writeRoutes {
				sh, w, kind := sh, w, kind
				g.script(func() {
					id := g.mk(kind, sh.r, sh.c)
					big := sh.r*sh.c > 100
					n := 0
					for _, i := range hot(sh.r) {
						for _, j := range hot(sh.c) {
							if big && g.pick(len(hot(sh.r))*len(hot(sh.c))) >= 8 {
								continue
							}
							g.write(id, w, i, j)
							g.read(id, readRoutes[n%len(readRoutes)], i, j)
							n++
						}
					}
				})
			}
			for _, rd := range readRoutes {
				sh, rd, kind := sh, rd, kind
				g.script(func() {
					id := g.mk(kind, sh.r, sh.c)
					for _, i := range hot(sh.r) {
						for _, j := range hot(sh.c) {
							if sh.r*sh.c > 100 && g.pick(len(hot(sh.r))*len(hot(sh.c))) >= 12 {
								continue
							}
							g.read(id, rd, i, j)
						}
					}
				})
			}
		}
	}
	history := func(max, steps int) func() {
		return func() {
			kind := pickOf(g, matKinds)
			sh := shape{1 + g.pick(max), 1 + g.pick(max)}
			if max > 50 {
				sh = pickOf(g, edgeShapes)
			}
			if kind == "diag" {
				sh.c = sh.r
			}
			id := g.mk(kind, sh.r, sh.c)
			for k := 0; k < steps && g.tame(true); k++ {
				i, j := g.hotOf(sh.r), g.hotOf(sh.c)
				if kind == "diag" && g.pick(2) == 0 {
					j = i
				}
				if g.pick(3) > 0 {
					g.write(id, pickOf(g, writeRoutes), i, j)
				} else {
					g.read(id, pickOf(g, readRoutes), i, j)
				}
			}
		}
	}
	g.repeat(150, history(5, 40))
	g.repeat(24, history(100, 12))
}

// operandKinds gives the kinds of matrix a binary operation may meet.
var operandKinds = []string{"arr", "blk", "diag", "fmat"}

func (g *gen) arithmetic(kind, other string, sh shape, inner int, val func() int) {
	// sums
	id := g.mkM(kind, matOf(sh.r, sh.c, val))
	if other != "diag" || sh.r == sh.c {
		y := g.mkM(other, matOf(sh.r, sh.c, val))
		g.free(g.M("Add", id, y, nil))
		g.free(g.M("Subt", id, y, nil))
		g.drop(y)
	}
	// with itself
	g.free(g.M("Add", id, id, nil))
	g.free(g.M("Subt", id, id, nil))
	if sh.r == sh.c && (other == kind || sh.r < 5) {
		g.free(g.M("Mul", id, id, nil))
		g.free(g.M("PreMul", id, id, nil))
	}
	// products with something of another shape
	if other != "diag" {
		y := g.mkM(other, matOf(sh.c, inner, val))
		g.free(g.M("Mul", id, y, nil))
		g.drop(y)
		y = g.mkM(other, matOf(inner, sh.r, val))
		g.free(g.M("PreMul", id, y, nil))
		g.drop(y)
	} else {
		y := g.mkM(other, matOf(sh.c, sh.c, val))
		g.free(g.M("Mul", id, y, nil))
		g.drop(y)
		y = g.mkM(other, matOf(sh.r, sh.r, val))
		g.free(g.M("PreMul", id, y, nil))
		g.drop(y)
	}
}

func (g *gen) unary(kind string, sh shape, val func() int) {
	id := g.mkM(kind, matOf(sh.r, sh.c, val))
	for _, z := range []int{0, 16, -16, val(), 4 * g.pick(9)} {
		if kind == "diag" && z >= cNaN {
			continue
		}
		g.free(g.M("SAdd", id, 0, nil, z))
		g.free(g.M("SMul", id, 0, nil, z))
	}
	g.free(g.M("T", id, 0, nil))
	g.M("Trace", id, 0, nil)
	g.M("IsSquare", id, 0, nil)
	g.M("Dims", id, 0, nil)
	g.M("LInf", id, 0, nil)
	g.Q("Frob", id, 0)
	for _, k := range []string{"vec", "fvec"} {
		v := g.mkV(k, vecOf(sh.c, val))
		g.free(g.M("OpVec", id, v, nil))
		w := g.mkV(k, vecOf(sh.r, val))
		g.free(g.M("PreOpVec", id, w, nil))
		g.drop(v, w)
	}
	a := g.raw1(vecOf(sh.c, val))
	g.free(g.M("Op", id, a, nil))
	b := g.raw1(vecOf(sh.r, val))
	g.free(g.M("PreOp", id, b, nil))
	g.drop(a, b)
}

// matChanges are the ways to change a matrix: the write routes, updating
// traversals and writes to storage it was given or hands out.
var matChanges = append(append([]string{}, writeRoutes...), "walk", "bounded", "shared")

func (g *gen) changeM(id int, how string) {
	r, c := g.dims(id)
	i, j := g.pick(r), g.pick(c)
	kind := g.objs[id].k
	if kind == "diag" {
		j = i
	}
	op := "u1"
	if kind == "diag" {
		op = "u3"
	}
	ord := pickOf(g, []string{"row", "col", "opt"})
	switch how {
	case "walk":
		g.walk(id, ord, 1, op, nil)
	case "bounded":
		a, b := g.rangeOf(r)
		p, q := g.rangeOf(c)
		g.walk(id, ord, 1, op, []int{a, b, p, q})
	case "shared":
		if kind == "blk" {
			g.write(id, "SetSub", i, j)
			return
		}
		raw := need(g.M("Ref", id, 0, nil))
		if g.objs[raw].k == "raw1" {
			g.R(raw, g.quarter(), i)
		} else {
			g.R(raw, g.quarter(), i, j)
		}
		g.drop(raw)
	default:
		g.write(id, how, i, j)
	}
}

// askAll asks a matrix (and another of its shape) everything that has an
// answer of its own.
func (g *gen) askAll(x, y int) {
	r, c := g.dims(x)
	kind := g.objs[x].k
	ops := []string{"LInf", "T", "Op", "PreOp", "OpVec", "PreOpVec", "Add", "Subt", "Mul", "PreMul", "Eq", "SMul", "SAdd", "Frob", "Trace", "Pow"}
	if kind == "diag" {
		ops = append(ops, "IsSing")
	}
	g.rng.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, op := range ops {
		switch op {
		case "Frob":
			g.Q(op, x, 0)
		case "Trace", "Pow":
			if r == c {
				g.free(g.M(op, x, 0, []int{2}[:b2i(op == "Pow")[0]]))
			}
		case "Op", "PreOp", "OpVec", "PreOpVec":
			n := c
			if op[0] == 'P' {
				n = r
			}
			v := 0
			if len(op) > 5 || op == "OpVec" {
				v = g.mkV(pickOf(g, vecKinds), g.quarters(n))
			} else {
				v = g.raw1(g.quarters(n))
			}
			g.free(g.M(op, x, v, nil))
			g.drop(v)
		case "Mul", "PreMul", "Add", "Subt", "Eq":
			if (op == "Mul" || op == "PreMul") && r != c {
				continue
			}
			g.free(g.M(op, x, y, nil))
			g.free(g.M(op, y, x, nil))
		case "SMul", "SAdd", "IsSing":
			g.free(g.M(op, x, 0, nil, 16*b2i(op == "SMul")[0]))
		default:
			g.free(g.M(op, x, 0, nil))
		}
	}
}

// reask: answers are about the present, whatever was asked before and however
// the matrix has changed since.
func (g *gen) reask(sh shape, kind string) {
	for _, how := range matChanges {
		how := how
		if kind == "diag" && sh.r != sh.c {
			return
		}
		g.script(func() {
			x := g.mk(kind, sh.r, sh.c)
			y := g.mk(pickOf(g, []string{kind, "fmat"}), sh.r, sh.c)
			for k := 0; k < 3 && g.tame(true); k++ {
				g.askAll(x, y)
				z := x
				if k == 1 && g.objs[y].k != "fmat" {
					z = y
				}
				g.changeM(z, how)
			}
			if g.tame(true) {
				g.askAll(x, y)
			}
		})
	}
}

// C02: every operation for every pair of kinds and shapes.
// every pair of special and ordinary values through every operation
func (g *gen) matrixPairs() {
	n := len(pairVals)
	col := make([][]int, n)
	left, right := make([][]int, n), make([][]int, n)
	dg := make([][]int, n)
	for i, a := range pairVals {
		col[i] = []int{a}
		left[i] = vecOf(n, func() int { return a })
		right[i] = append([]int{}, pairVals...)
		dg[i] = make([]int, n)
		dg[i][i] = a
	}
	row := [][]int{pairVals}
	for _, kind := range matKinds {
		for _, other := range operandKinds {
			kind, other := kind, other
			g.script(func() {
				if kind != "diag" {
					x, y := g.mkM(kind, left), g.mkM(other, right)
					g.free(g.M("Add", x, y, nil))
					g.free(g.M("Subt", x, y, nil))
					if other != "diag" {
						c, r := g.mkM(kind, col), g.mkM(other, row)
						g.free(g.M("Mul", c, r, nil))
						g.free(g.M("PreMul", g.mkM(kind, row), g.mkM(other, col), nil))
						g.free(g.M("Mul", g.mkM(kind, [][]int{{16, 0}, {0, -16}, {32, 0}}), g.mkM(other, [][]int{pairVals, right[0]}), nil))
					} else {
						g.free(g.M("Mul", x, y, nil))
						g.free(g.M("PreMul", x, y, nil))
					}
					return
				}
				if other == "diag" {
					for k := range pairVals {
						y := g.mkM(other, dg)
						turned := make([][]int, n)
						for i := range turned {
							turned[i] = make([]int, n)
							turned[i][i] = pairVals[(i+k)%n]
						}
						x := g.mkM(kind, turned)
						for _, op := range []string{"Add", "Subt", "Mul", "PreMul"} {
							g.free(g.M(op, x, y, nil))
						}
						g.drop(x, y)
					}
					return
				}
				x := g.mkM(kind, dg)
				g.free(g.M("Mul", x, g.mkM(other, right), nil))
				g.free(g.M("PreMul", x, g.mkM(other, left), nil))
			})
		}
		kind := kind
		g.script(func() {
			x := g.mkM(kind, right)
			for _, z := range pairVals {
				if kind == "diag" && z >= cNaN {
					continue
				}
				g.free(g.M("SAdd", x, 0, nil, z))
				g.free(g.M("SMul", x, 0, nil, z))
			}
			for _, z := range pairVals {
				if kind != "diag" {
					y := g.mkM(kind, right)
					for j := range pairVals {
						g.M("AddTo", y, 0, []int{1, j}, z)
						g.M("MulTo", y, 0, []int{2, j}, z)
					}
					g.drop(y)
				}
				y := g.mkM(kind, right)
				for j := range pairVals {
					g.M("AddTo", y, 0, []int{j, j}, z)
				}
				g.drop(y)
				y = g.mkM(kind, right)
				for j := range pairVals {
					g.M("MulTo", y, 0, []int{j, j}, z)
				}
				g.drop(y)
			}
			if kind != "diag" {
				c := g.mkM(kind, col)
				r := g.mkM(kind, row)
				for _, z := range pairVals {
					a := g.raw1([]int{z})
					v, w := g.mkV("vec", []int{z}), g.mkV("fvec", []int{z})
					g.free(g.M("Op", c, a, nil))
					g.free(g.M("PreOp", r, a, nil))
					for _, y := range []int{v, w} {
						g.free(g.M("OpVec", c, y, nil))
						g.free(g.M("PreOpVec", r, y, nil))
					}
					g.drop(a, v, w)
				}
				return
			}
			for k := range pairVals {
				i := k
				turned := vecOf(n, func() int { i++; return pairVals[i%n] })
				a := g.raw1(turned)
				v, w := g.mkV("vec", turned), g.mkV("fvec", turned)
				g.free(g.M("Op", x, a, nil))
				g.free(g.M("PreOp", x, a, nil))
				for _, y := range []int{v, w} {
					g.free(g.M("OpVec", x, y, nil))
					g.free(g.M("PreOpVec", x, y, nil))
				}
				g.drop(a, v, w)
			}
		})
	}
}

func driveC02(g *gen) {
	g.matrixPairs()
	for _, kind := range matKinds {
		for _, sh := range []shape{{1, 1}, {2, 2}, {3, 3}, {2, 3}, {3, 2}} {
			g.reask(sh, kind)
		}
		if kind == "blk" {
			g.reask(shape{53, 1}, kind)
			g.reask(shape{1, 54}, kind)
		}
	}
	for _, kind := range matKinds {
		kind := kind
		for _, sh := range g.shapesFor(kind, 4, true) {
			sh := sh
			g.script(func() { g.unary(kind, sh, g.quarter) })
			if sh.r <= 4 && sh.c <= 4 {
				g.script(func() { g.unary(kind, sh, g.special) })
				g.script(func() { g.unary(kind, sh, g.hollow) })
			}
			for _, other := range operandKinds {
				other := other
				inner := []int{1, 2, 4}
				if sh.r > 4 || sh.c > 4 {
					inner = []int{1, 53}
					if sh.r*sh.c > 3000 && (other == "diag" || other == "fmat" && kind == "arr") {
						inner = []int{2}
					}
				}
				for _, n := range inner {
					n := n
					g.script(func() { g.arithmetic(kind, other, sh, n, g.quarter) })
				}
				if sh.r <= 3 && sh.c <= 3 {
					g.script(func() { g.arithmetic(kind, other, sh, 2, g.special) })
					g.script(func() { g.arithmetic(kind, other, sh, 2, g.hollow) })
				}
				if sh.r*sh.c > 50 && sh.r*sh.c < 400 && kind != "diag" && other != "diag" {
					g.script(func() { g.arithmetic(kind, other, sh, 2, g.hollow) })
				}
			}
		}
		// mixed block layouts: rows, inner and columns on different sides of the borders
		if kind == "blk" {
			for _, a := range []int{1, 52, 53, 60} {
				for _, b := range []int{2, 52, 53, 105} {
					for _, c := range []int{1, 51, 54} {
						a, b, c := a, b, c
						other := []string{"blk", "arr", "fmat"}[(a+b+c)%3]
						g.script(func() {
							id := g.mk("blk", a, b)
							y := g.mk(other, b, c)
							g.free(g.M("Mul", id, y, nil))
						})
					}
				}
			}
		}
		for n := 1; n <= 4; n++ {
			for p := 0; p <= 9; p++ {
				n, p := n, p
				if n == 4 && p > 6 {
					continue
				}
				g.script(func() {
					id := g.mkM(kind, matOf(n, n, func() int { return 16 * (g.pick(5) - 2) }))
					g.free(g.M("Pow", id, 0, []int{p}))
				})
			}
		}
		// powers of permutations and shifts, where exponents can be large
		for _, p := range []int{5, 12, 13, 31, 64, 100, 127, 1000, 1023} {
			p := p
			g.script(func() {
				n := 2 + g.pick(4)
				perm := g.rng.Perm(n)
				m := matOf(n, n, func() int { return 0 })
				for i := range m {
					k := i
					if kind != "diag" {
						k = perm[i]
					}
					m[i][k] = 16 * (1 - 2*g.pick(2))
				}
				id := g.mkM(kind, m)
				g.free(g.M("Pow", id, 0, []int{p}))
			})
		}
	}
	g.script(func() {
		m := matOf(53, 53, func() int { return 0 })
		for i := range m {
			m[i][(i+1)%53] = 16
			m[i][i] = 16
		}
		id := g.mkM("blk", m)
		for p := 0; p < 6; p++ {
			g.free(g.M("Pow", id, 0, []int{p}))
		}
	})
	// dense random sizes and chains of operations on results
	g.repeat(150, func() {
		k1, k2 := pickOf(g, matKinds), pickOf(g, operandKinds)
		n := 1 + g.pick(6)
		sh := shape{n, n}
		if k1 != "diag" {
			sh = shape{1 + g.pick(6), 1 + g.pick(6)}
		}
		g.arithmetic(k1, k2, sh, 1+g.pick(6), g.quarter)
		g.unary(k1, sh, g.quarter)
	})
	g.repeat(80, func() {
		n := 1 + g.pick(4)
		ids := []int{g.mk(pickOf(g, matKinds), n, n), g.mk(pickOf(g, matKinds), n, n)}
		for k := 0; k < 12; k++ {
			op := pickOf(g, []string{"Add", "Subt", "Mul", "PreMul", "T", "SMul", "SAdd", "Copy"})
			x, y := pickOf(g, ids), pickOf(g, ids)
			if !g.tame(true) {
				break
			}
			var id int
			switch op {
			case "T", "Copy":
				id = g.M(op, x, 0, nil)
			case "SMul", "SAdd":
				id = g.M(op, x, 0, nil, g.integer())
			default:
				id = g.M(op, x, y, nil)
			}
			if id != 0 {
				ids = append(ids, id)
			}
		}
	})
	// larger blocks, fast path against general path
	g.repeat(6, func() {
		a, b, c := 50+g.pick(60), 50+g.pick(60), 1+g.pick(60)
		id := g.mk("blk", a, b)
		y := g.mk(pickOf(g, operandKinds[:2]), b, c)
		g.free(g.M("Mul", id, y, nil))
	})
}

// resultOps are the requests that hand out something new, or a reference.
var resultOps = []string{"Row", "Col", "RowVec", "ColVec", "RowMat", "ColMat", "Sub", "Data", "Ref", "Copy", "Add", "Subt", "Mul", "PreMul", "SAdd", "SMul", "T", "Op", "OpVec", "PreOp", "PreOpVec", "Pow", "Select", "Inv"}

// derive performs a request of x with a result, on valid arguments.
func (g *gen) derive(x int, op string) (id int, operand int) {
	r, c := g.dims(x)
	kind := g.objs[x].k
	switch op {
	case "Row", "RowVec", "RowMat":
		id = g.M(op, x, 0, []int{g.pick(r)})
	case "Col", "ColVec", "ColMat":
		id = g.M(op, x, 0, []int{g.pick(c)})
	case "Sub":
		a, b := g.rangeOf(r)
		p, q := g.rangeOf(c)
		if g.pick(3) == 0 {
			a, b, p, q = 0, r-1, 0, c-1
		}
		id = g.M(op, x, 0, []int{a, b, p, q})
	case "Ref":
		if kind == "blk" || kind == "fmat" {
			id = g.M("Copy", x, 0, nil)
		} else {
			id = g.M(op, x, 0, nil)
		}
	case "Data", "Copy", "T":
		id = g.M(op, x, 0, nil)
	case "Inv":
		if kind != "diag" {
			id = g.M("Copy", x, 0, nil)
			break
		}
		for i := 0; i < r; i++ {
			g.M("Set", x, 0, []int{i, i}, pickOf(g, []int{16, -16, 32, 8, 4}))
		}
		id = g.M(op, x, 0, []int{0}, 0)
	case "SAdd":
		z := 0
		if kind != "diag" || r == 1 {
			z = g.integer()
		}
		id = g.M(op, x, 0, nil, z)
	case "SMul":
		id = g.M(op, x, 0, nil, pickOf(g, []int{0, 16, -16, 32}))
	case "Add", "Subt":
		k := kind
		if kind != "diag" {
			k = pickOf(g, []string{"arr", "blk", "fmat"})
		}
		operand = g.mk(k, r, c)
		id = g.M(op, x, operand, nil)
	case "Mul":
		operand = g.mk(pickOf(g, operandKinds), c, c)
		id = g.M(op, x, operand, nil)
	case "PreMul":
		operand = g.mk(pickOf(g, operandKinds), r, r)
		id = g.M(op, x, operand, nil)
	case "Op":
		operand = g.raw1(g.quarters(c))
		id = g.M(op, x, operand, nil)
	case "PreOp":
		operand = g.raw1(g.quarters(r))
		id = g.M(op, x, operand, nil)
	case "OpVec":
		operand = g.mkV(pickOf(g, []string{"vec", "fvec"}), g.quarters(c))
		id = g.M(op, x, operand, nil)
	case "PreOpVec":
		operand = g.mkV(pickOf(g, []string{"vec", "fvec"}), g.quarters(r))
		id = g.M(op, x, operand, nil)
	case "Pow":
		if r != c {
			id = g.M("Copy", x, 0, nil)
			break
		}
		id = g.M(op, x, 0, []int{g.pick(3)})
	case "Select":
		e := g.ev("M", op, x, 0, nil)
		e.RS = vecOf(1+g.pick(3), func() int { return g.pick(r) })
		e.CS = vecOf(1+g.pick(3), func() int { return g.pick(c) })
		id = g.do(e)
	}
	return id, operand
}

// poke writes to one entry of a live object.
func (g *gen) poke(id int) {
	o := g.objs[id]
	v := 16 * (100 + g.pick(400))
	switch o.k {
	case "raw1":
		if len(o.r1) > 0 {
			g.R(id, v, g.pick(len(o.r1)))
		}
	case "raw2":
		if i := g.pick(len(o.r2)); len(o.r2[i]) > 0 {
			g.R(id, v, i, g.pick(len(o.r2[i])))
		}
	case "vec", "fvec":
		if n := o.v.Dimension(); n > 0 {
			g.V("Set", id, 0, []int{g.pick(n)}, v)
		}
	default:
		r, c := g.dims(id)
		i, j := g.pick(r), g.pick(c)
		if o.k == "diag" {
			j = i
		}
		g.M("Set", id, 0, []int{i, j}, v)
	}
}

// pokeAll writes to every entry of a small object.
func (g *gen) pokeAll(id int) {
	o := g.objs[id]
	n := 0
	next := func() int { n++; return 16 * (500 + n) }
	switch o.k {
	case "raw1":
		for i := range o.r1 {
			g.R(id, next(), i)
		}
	case "raw2":
		for i := range o.r2 {
			for j := range o.r2[i] {
				g.R(id, next(), i, j)
			}
		}
	case "vec", "fvec":
		for i := 0; i < o.v.Dimension(); i++ {
			g.V("Set", id, 0, []int{i}, next())
		}
	default:
		r, c := g.dims(id)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				if o.k != "diag" || i == j {
					g.M("Set", id, 0, []int{i, j}, next())
				}
			}
		}
	}
}

// C03: derive, then write to every side.
func driveC03(g *gen) {
	for _, kind := range matKinds {
		for _, op := range resultOps {
			for _, sh := range []shape{{1, 1}, {2, 2}, {2, 3}, {3, 1}, {1, 3}} {
				if kind == "diag" && sh.r != sh.c {
					continue
				}
				kind, op, sh := kind, op, sh
				for rep := 0; rep < 2; rep++ {
					g.script(func() {
						x := g.mk(kind, sh.r, sh.c)
						id, y := g.derive(x, op)
						if id == 0 {
							return
						}
						g.pokeAll(id)
						g.pokeAll(x)
						if y != 0 {
							g.pokeAll(y)
						}
						g.pokeAll(id)
					})
				}
			}
			// whole blocks taken over
			if kind != "diag" {
				kind, op := kind, op
				g.script(func() {
					x := g.mk(kind, 53, 2)
					if id, y := g.derive(x, op); id != 0 {
						g.poke(id)
						g.poke(x)
						if y != 0 {
							g.poke(y)
						}
					}
				})
			}
		}
	}
	// construction, with and without copying
	type con struct {
		op    string
		i     []int
		kinds int // 1 array, 2 array of rows, 3 vector, 4 two vectors
	}
	for _, c := range []con{{"Slices", nil, 2}, {"BlkSlices", nil, 2}, {"ArrSlices", []int{0}, 2}, {"ArrSlices", []int{1}, 2},
		{"ArrCol", nil, 1}, {"WithDiag", nil, 1}, {"RealDiag", nil, 1}, {"DiagSlice", nil, 1}, {"Diag", []int{0}, 1}, {"Diag", []int{1}, 1},
		{"VSlice", nil, 1}, {"VReal", nil, 1}, {"VArr", []int{0}, 1}, {"VArr", []int{1}, 1}, {"VCopy", nil, 3}, {"VTwo", nil, 4}, {"VTwoArr", nil, 4}, {"Outer", nil, 4}} {
		c := c
		for _, n := range []int{1, 2, 3, 53} {
			n := n
			for rep := 0; rep < 2; rep++ {
				if n == 53 && (rep == 1 || c.op == "WithDiag") {
					continue
				}
				fk := []string{"vec", "fvec"}[rep]
				g.script(func() {
					var y, z int
					e := g.ev("N", c.op, 0, 0, c.i)
					switch c.kinds {
					case 1:
						y = g.raw1(g.quarters(n))
					case 2:
						y = g.raw2(matOf(n, 1+g.pick(3), g.quarter))
					case 3:
						y = g.mkV(fk, g.quarters(n))
					case 4:
						if c.op == "VTwoArr" {
							fk = "vec"
						}
						y, z = g.mkV(fk, g.quarters(n)), g.mkV(fk, g.quarters(2))
					}
					e.Y, e.Z = y, z
					id := g.do(e)
					if id == 0 {
						return
					}
					g.pokeAll(y)
					g.pokeAll(id)
					if z != 0 {
						g.pokeAll(z)
					}
					g.pokeAll(y)
					// a reference to the data of the new object, and a copy of it
					if k := g.objs[id].k; k == "arr" || k == "diag" {
						ref := g.M("Ref", id, 0, nil)
						cp := g.M("Copy", id, 0, nil)
						if ref != 0 && cp != 0 {
							g.pokeAll(ref)
							g.pokeAll(cp)
							g.pokeAll(id)
						}
					} else if k == "vec" {
						ref := g.V("Ref", id, 0, nil)
						cp := g.V("Copy", id, 0, nil)
						if ref != 0 && cp != 0 {
							g.pokeAll(ref)
							g.pokeAll(cp)
							g.pokeAll(y)
						}
					}
				})
			}
		}
	}
	// arguments of writes
	for _, kind := range matKinds {
		for _, route := range writeRoutes {
			for _, sh := range []shape{{1, 1}, {1, 3}, {2, 2}, {3, 1}, {2, 3}, {3, 3}, {53, 2}, {2, 53}, {52, 3}, {3, 105}} {
				if kind == "diag" && sh.r != sh.c || sh.r*sh.c > 10 && kind == "diag" {
					continue
				}
				kind, route, sh := kind, route, sh
				g.script(func() {
					x := g.mk(kind, sh.r, sh.c)
					var args []int
					all := g.pokeAll
					if sh.r*sh.c > 10 {
						all = func(id int) {
							for k := 0; k < 4; k++ {
								g.poke(id)
							}
						}
					}
					g.kept = func(a int) { args = append(args, a) }
					for _, i := range hot(sh.r) {
						for _, j := range hot(sh.c) {
							for rep := 0; rep < 3; rep++ {
								if sh.r*sh.c > 10 && g.pick(sh.r+sh.c) > 8 {
									continue
								}
								g.write(x, route, i, j)
								for _, a := range args {
									all(a)
									all(x)
								}
								for len(args) > 2 || g.pick(2) == 0 && len(args) > 0 {
									g.drop(args[0])
									args = args[1:]
								}
							}
						}
					}
				})
			}
		}
	}
	for _, op := range []string{"CopyFrom", "Comb", "SetSubVec", "SetSubArr"} {
		for n := 1; n <= 4; n++ {
			op, n := op, n
			g.script(func() {
				x := g.mkV("vec", g.quarters(n))
				var args []int
				g.kept = func(a int) { args = append(args, a) }
				for rep := 0; rep < 12; rep++ {
					g.changeVOp(x, op)
					for _, a := range args {
						g.pokeAll(a)
						g.pokeAll(x)
					}
					for len(args) > 1 || g.pick(2) == 0 && len(args) > 0 {
						g.drop(args[0])
						args = args[1:]
					}
				}
			})
		}
	}
	// a block matrix over more blocks than it needs
	for _, sh := range []shape{{2, 2}, {53, 2}, {2, 53}} {
		for _, op := range resultOps {
			sh, op := sh, op
			g.script(func() {
				y := g.raw2(append(toBlocks(matOf(sh.r, sh.c, g.quarter)), g.quarters(3)))
				x := g.N("BlkData", y, []int{sh.r, sh.c})
				g.drop(y) // the blocks are the matrix's from here on
				if x == 0 {
					return
				}
				if id, _ := g.derive(x, op); id != 0 {
					g.poke(id)
					g.poke(x)
				}
			})
		}
	}
	// vectors
	for _, op := range vecResultOps {
		for n := 1; n <= 3; n++ {
			for _, k2 := range []string{"vec", "fvec"} {
				op, n, k2 := op, n, k2
				g.script(func() {
					x := g.mkV("vec", g.quarters(n))
					id, y := g.deriveV(x, op, k2)
					if id == 0 {
						return
					}
					g.pokeAll(id)
					g.pokeAll(x)
					if y != 0 {
						g.pokeAll(y)
					}
				})
			}
		}
	}
	// vectors that are a part of an array
	for _, op := range append([]string{"MapAdd", "Fill", "Comb", "CopyFrom", "SetSubVec"}, vecResultOps...) {
		for n := 1; n <= 3; n++ {
			for cp := 2; cp <= 3; cp++ {
				op, n, cp := op, n, cp
				g.script(func() {
					a := g.raw1(g.quarters(n + 3))
					x := need(g.N("VWin", a, []int{1, n, 1}[:cp]))
					for k := 0; k < 2; k++ {
						if op == "App" || op == "AppVec" || op == "SubVec" || op == "Copy" || op == "ToArr" || op == "Add" {
							id, y := g.deriveV(x, op, pickOf(g, vecKinds))
							if id != 0 {
								g.pokeAll(id)
							}
							if y != 0 {
								g.pokeAll(y)
							}
						} else if op != "Ref" && op != "Subt" && op != "EMul" && op != "EDiv" {
							g.changeVOp(x, op)
						} else {
							id, _ := g.deriveV(x, op, "vec")
							if id != 0 {
								g.pokeAll(id)
							}
						}
						g.pokeAll(x)
						g.pokeAll(a)
					}
				})
			}
		}
	}
	g.neutrals()
	// histories
	g.repeat(200, func() { g.history(60) })
}

// history: a growing set of live objects under arbitrary requests.
func (g *gen) history(steps int) {
	n := 1 + g.pick(3)
	m := 1 + g.pick(3)
	var live []int
	add := func(id int) {
		if id != 0 {
			live = append(live, id)
		}
	}
	add(g.mk("arr", n, m))
	add(g.mk("blk", n, m))
	add(g.mk("diag", n, n))
	add(g.mkV("vec", g.quarters(n)))
	add(g.raw1(g.quarters(n)))
	add(g.raw2(matOf(n, m, g.quarter)))
	for k := 0; k < steps && g.tame(true); k++ {
		x := pickOf(g, live)
		o := g.objs[x]
		if len(live) > 14 {
			i := g.pick(len(live))
			g.drop(live[i])
			live = append(live[:i], live[i+1:]...)
			continue
		}
		if g.pick(3) == 0 {
			g.poke(x)
			continue
		}
		switch o.k {
		case "raw1":
			if n := len(o.r1); n > 0 && g.pick(3) == 0 {
				p := g.pick(n)
				add(g.N("VWin", x, []int{p, 1 + g.pick(n-p), 1}[:2+g.pick(2)]))
				continue
			}
			add(g.N(pickOf(g, []string{"VArr", "Diag"}), x, []int{g.pick(2)}))
		case "raw2":
			add(g.N(pickOf(g, []string{"ArrSlices", "ArrSlices", "BlkSlices", "Slices"}), x, []int{g.pick(2)}))
		case "vec", "fvec":
			if o.k == "fvec" {
				add(g.do(&ev{T: "N", Op: "VCopy", Y: x}))
				continue
			}
			if g.pick(3) == 0 {
				g.changeV(x)
				continue
			}
			id, _ := g.deriveV(x, pickOf(g, vecResultOps), pickOf(g, []string{"vec", "fvec"}))
			add(id)
		case "fmat":
			g.poke(x)
		default:
			r, c := g.dims(x)
			if g.pick(3) == 0 {
				i := g.pick(r)
				j := g.pick(c)
				if o.k == "diag" {
					j = i
				}
				g.write(x, pickOf(g, writeRoutes), i, j)
				continue
			}
			id, _ := g.derive(x, pickOf(g, resultOps))
			add(id)
		}
	}
}

// C04: limits of every argument.
func driveC04(g *gen) {
	around := func(n int) []int { return []int{-1, 0, n - 1, n, n + 1} }
	shapes := []shape{{1, 1}, {2, 3}, {3, 2}, {3, 3}, {1, 4}}
	for _, kind := range matKinds {
		ss := shapes
		if kind == "blk" {
			ss = append(append([]shape{}, shapes...), shape{53, 2}, shape{2, 54})
		}
		for _, sh := range ss {
			if kind == "diag" && sh.r != sh.c {
				continue
			}
			kind, sh := kind, sh
			// single entries
			g.script(func() {
				id := g.mk(kind, sh.r, sh.c)
				big := -1 << 40
				for _, i := range append(around(sh.r), 1000, big>>11) {
					for _, j := range append(around(sh.c), 1000, big>>11) {
						g.M("At", id, 0, []int{i, j})
						v := g.quarter()
						if kind == "diag" && i != j {
							v = pickOf(g, []int{0, 16})
						}
						g.M("Set", id, 0, []int{i, j}, v)
						g.M("AddTo", id, 0, []int{i, j}, v)
						g.M("MulTo", id, 0, []int{i, j}, 16)
					}
				}
			})
			// rows and columns
			g.script(func() {
				id := g.mk(kind, sh.r, sh.c)
				for _, i := range append(around(sh.r), sh.c, sh.c+3) {
					for _, op := range []string{"Row", "RowVec", "RowMat"} {
						g.free(g.M(op, id, 0, []int{i}))
					}
				}
				for _, j := range append(around(sh.c), sh.r, sh.r+3) {
					for _, op := range []string{"Col", "ColVec", "ColMat"} {
						g.free(g.M(op, id, 0, []int{j}))
					}
				}
			})
			for _, route := range []string{"SetRow", "SetRowVec", "SetRowMat", "SetCol", "SetColVec", "SetColMat"} {
				route := route
				g.script(func() {
					id := g.mk(kind, sh.r, sh.c)
					n, len0 := sh.r, sh.c
					col := route[3] == 'C'
					if col {
						n, len0 = sh.c, sh.r
					}
					lens := []int{len0, len0 - 1, len0 + 1, n, 1}
					for _, ln := range lens {
						if ln < 1 {
							continue
						}
						for _, i := range around(n) {
							v := g.quarters(ln)
							if kind == "diag" && g.pick(2) == 0 {
								for k := range v {
									if k != i {
										v[k] = 0
									}
								}
							}
							var ys []int
							switch route[6:] {
							case "":
								ys = []int{g.raw1(v)}
							case "Vec":
								ys = []int{g.mkV("vec", v), g.mkV("fvec", v)}
							case "Mat":
								m := [][]int{v}
								t := make([][]int, len(v))
								for k := range t {
									t[k] = v[k : k+1]
								}
								if col {
									m, t = t, m
								}
								ys = []int{g.mkM(pickOf(g, []string{"arr", "blk"}), m), g.mkM("fmat", m), g.mkM("blk", t),
									g.mk("arr", 2, len(v)), g.mk(pickOf(g, operandKinds[:2]), len(v), 2)}
							}
							for _, y := range ys {
								g.M(route, id, y, []int{i})
								g.drop(y)
							}
						}
					}
				})
			}
			// ranges
			for _, op := range []string{"Sub", "CopySub"} {
				op := op
				g.script(func() {
					id := g.mk(kind, sh.r, sh.c)
					for _, a := range around(sh.r) {
						for _, b := range around(sh.r) {
							for _, c := range around(sh.c) {
								for _, d := range around(sh.c) {
									bad := 0
									if a < 0 || a >= sh.r {
										bad++
									}
									if b < 0 || b >= sh.r {
										bad++
									}
									if c < 0 || c >= sh.c {
										bad++
									}
									if d < 0 || d >= sh.c {
										bad++
									}
									if bad > 1 && g.pick(10) > 0 {
										continue
									}
									if op == "Sub" {
										g.free(g.M(op, id, 0, []int{a, b, c, d}))
									} else {
										y := g.raw2(g.ragged(1+g.pick(3), 1+g.pick(3)))
										g.M(op, id, y, []int{a, b, c, d})
										g.drop(y)
									}
								}
							}
						}
					}
				})
			}
			// submatrices written
			g.script(func() {
				id := g.mk(kind, sh.r, sh.c)
				g.M("SetSub", id, 0, []int{0, 0})
				for _, d := range [][][]int{{{16}}, {{16, 0}, {0, 32}}, {{0}, {0}}, {{0, 0, 0}}, {{16, 0}, {0}}, {{0}, {0, 16}}, {{}}, {{}, {}}, {}, {{0, 16}, {16, 0}}} {
					for _, i := range around(sh.r) {
						for _, j := range around(sh.c) {
							y := g.raw2(d)
							g.M("SetSub", id, y, []int{i, j})
							g.drop(y)
						}
					}
				}
			})
			// selections
			g.script(func() {
				id := g.mk(kind, sh.r, sh.c)
				try := func(rs, cs, missing []int) {
					e := g.ev("M", "Select", id, 0, missing)
					e.RS, e.CS = rs, cs
					g.free(g.do(e))
					for _, big := range []int{0, 4} {
						y := g.raw2(g.ragged(1+big+g.pick(2), 1+big+g.pick(2)))
						e = g.ev("M", "CopySel", id, y, missing)
						e.RS, e.CS = rs, cs
						g.do(e)
						g.drop(y)
					}
				}
				sel := [][]int{{}, {0}, {-1}, {sh.r - 1}, {sh.r}, {0, 0}, {0, sh.r}, {sh.c - 1}, {sh.c, 0}}
				for _, rs := range sel {
					for _, cs := range sel {
						try(rs, cs, nil)
					}
				}
				try(nil, []int{0}, []int{1})
				try([]int{0}, nil, []int{2})
				try(nil, nil, []int{1, 2})
				try([]int{sh.r}, nil, []int{2})
				try([]int{}, nil, []int{2})
				// one that is outside, in every place
				for n := 1; n <= 4; n++ {
					for k := 0; k < n; k++ {
						for _, out := range []int{-1, 0, 1} {
							rs, cs := make([]int, n), make([]int, n)
							for i := range rs {
								rs[i], cs[i] = g.pick(sh.r), g.pick(sh.c)
							}
							is := func(at *int, n int) {
								if out < 0 {
									*at = -1 - g.pick(2)
								} else {
									*at = n + out
								}
							}
							was := rs[k]
							is(&rs[k], sh.r)
							try(rs, cs, nil)
							rs = append([]int{}, rs...)
							rs[k] = was
							cs = append([]int{}, cs...)
							is(&cs[k], sh.c)
							try(rs, cs, nil)
						}
					}
				}
			})
			// operands of every small shape
			for _, other := range operandKinds {
				other := other
				g.script(func() {
					id := g.mk(kind, sh.r, sh.c)
					for _, o := range []shape{{1, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {1, 4}, {4, 1}, {sh.r, sh.c}, {sh.c, sh.r}} {
						if other == "diag" && o.r != o.c {
							continue
						}
						y := g.mk(other, o.r, o.c)
						for _, op := range []string{"Add", "Subt", "Mul", "PreMul"} {
							g.free(g.M(op, id, y, nil))
						}
						g.drop(y)
					}
				})
			}
			g.script(func() {
				id := g.mk(kind, sh.r, sh.c)
				for _, n := range []int{0, 1, 2, 3, 4, sh.r - 1, sh.c - 1, sh.r + 1, sh.c + 1, sh.r, sh.c} {
					y := g.raw1(g.quarters(n))
					for _, op := range []string{"Op", "PreOp"} {
						g.free(g.M(op, id, y, nil))
					}
					g.drop(y)
					for _, k := range []string{"vec", "fvec"} {
						v := g.mkV(k, g.quarters(n))
						for _, op := range []string{"OpVec", "PreOpVec"} {
							g.free(g.M(op, id, v, nil))
						}
						g.drop(v)
					}
				}
				if sh.r <= 4 && sh.c <= 4 {
					g.M("Trace", id, 0, nil)
					for _, p := range []int{-2, -1, 0, 1, 2} {
						g.free(g.M("Pow", id, 0, []int{p}))
					}
				}
			})
			// traversal ranges
			for _, ord := range []string{"row", "col", "opt"} {
				for upd := 0; upd < 2; upd++ {
					ord, upd := ord, upd
					g.script(func() {
						id := g.mk(kind, sh.r, sh.c)
						for k := 0; k < 40; k++ {
							a := []int{pickOf(g, around(sh.r)), pickOf(g, around(sh.r)), pickOf(g, around(sh.c)), pickOf(g, around(sh.c))}
							g.do(&ev{T: "W", Op: "u3", X: id, I: a, Bnd: 1, Upd: upd, Ord: ord, Fin: 16})
						}
					})
				}
			}
		}
	}
	g.empties()
	// construction
	g.script(func() {
		for _, op := range []string{"Dims", "ArrDims", "BlkDims"} {
			for _, a := range []int{-2, -1, 0, 1, 2, 53} {
				for _, b := range []int{-2, -1, 0, 1, 2, 53} {
					g.free(g.N(op, 0, []int{a, b}))
				}
			}
		}
		for _, n := range []int{-2, -1, 0, 1, 2} {
			g.free(g.N("Id", 0, []int{n}))
			g.free(g.N("DiagDim", 0, []int{n}))
		}
	})
	for _, d := range [][][]int{{}, {{}}, {{}, {}}, {{16}, {}}, {{}, {16}}, {{16, 32}, {16}}, {{16}, {16, 32}}, {{16, 0}, {16, 32}, {0}}, {{16}}, {{16, 32}}, {{16}, {32}}} {
		d := d
		g.script(func() {
			for _, op := range []string{"Slices", "ArrSlices", "BlkSlices"} {
				for cp := 0; cp < 2; cp++ {
					y := g.raw2(d)
					g.free(g.N(op, y, []int{cp}))
					g.drop(y)
					g.free(g.N(op, 0, []int{cp}))
				}
			}
		})
	}
	g.script(func() {
		for _, op := range []string{"ArrCol", "WithDiag", "RealDiag", "DiagSlice", "Diag"} {
			for cp := 0; cp < 2; cp++ {
				g.free(g.N(op, 0, []int{cp}))
				for n := 0; n < 3; n++ {
					if n == 0 && op != "ArrCol" && op != "WithDiag" {
						continue
					}
					y := g.raw1(g.quarters(n))
					g.free(g.N(op, y, []int{cp}))
					g.drop(y)
				}
			}
		}
	})
	g.script(func() {
		for _, d := range []struct {
			r, c int
			l    []int
		}{{1, 1, []int{1}}, {2, 2, []int{4}}, {2, 2, []int{3}}, {2, 2, []int{5}}, {2, 2, nil}, {53, 2, []int{104, 2}}, {53, 2, []int{104}}, {53, 2, []int{2, 104}}, {2, 53, []int{104, 2}},
			{0, 1, []int{1}}, {1, 0, []int{1}}, {-1, 1, []int{1}}, {0, 0, nil}} {
			m := make([][]int, len(d.l))
			for i := range m {
				m[i] = g.quarters(d.l[i])
			}
			y := g.raw2(m)
			g.free(g.N("BlkData", y, []int{d.r, d.c}))
		}
	})
	// wrong requests in the middle of a history leave everything alone
	g.repeat(60, func() {
		kind := pickOf(g, matKinds)
		sh := shape{1 + g.pick(4), 1 + g.pick(4)}
		if kind == "diag" {
			sh.c = sh.r
		}
		id := g.mk(kind, sh.r, sh.c)
		wild := func(n int) int { return g.pick(n+4) - 2 }
		for k := 0; k < 40 && g.tame(true); k++ {
			switch g.pick(6) {
			case 0:
				g.M(pickOf(g, []string{"Set", "AddTo", "At"}), id, 0, []int{wild(sh.r), wild(sh.c)}, g.quarter())
			case 1:
				y := g.raw1(g.quarters(g.pick(6)))
				g.M(pickOf(g, []string{"SetRow", "SetCol"}), id, y, []int{wild(sh.r)})
				g.drop(y)
			case 2:
				y := g.raw2(matOf(1+g.pick(3), 1+g.pick(3), g.quarter))
				g.M("SetSub", id, y, []int{wild(sh.r), wild(sh.c)})
				g.drop(y)
			case 3:
				g.free(g.M("Sub", id, 0, []int{wild(sh.r), wild(sh.r), wild(sh.c), wild(sh.c)}))
			case 4:
				y := g.mkV(pickOf(g, []string{"vec", "fvec"}), g.quarters(g.pick(6)))
				g.M(pickOf(g, []string{"SetRowVec", "SetColVec"}), id, y, []int{wild(sh.c)})
				g.drop(y)
			case 5:
				y := g.mk(pickOf(g, []string{"arr", "blk", "fmat"}), 1+g.pick(4), 1+g.pick(4))
				op := pickOf(g, []string{"SetRowMat", "SetColMat", "Add", "Mul", "Subt", "PreMul"})
				g.free(g.M(op, id, y, []int{wild(sh.c)}))
				g.drop(y)
			}
		}
	})
}

// empties drives matrices that have no entries (yet).
func (g *gen) empties() {
	for k := range matKinds {
		k := k
		g.script(func() {
			id := g.N("Empty", 0, []int{k})
			one := g.raw1([]int{16})
			vec := g.mkV("vec", []int{16})
			for _, op := range []string{"Dims", "IsSquare", "Data"} {
				g.free(g.M(op, id, 0, nil))
			}
			for i := -1; i <= 1; i++ {
				for _, op := range []string{"Row", "RowVec", "RowMat", "Col", "ColVec", "ColMat"} {
					g.free(g.M(op, id, 0, []int{i}))
				}
				g.M("SetRow", id, one, []int{i})
				g.M("SetCol", id, one, []int{i})
				g.M("SetRowVec", id, vec, []int{i})
				g.M("SetColVec", id, vec, []int{i})
				for j := -1; j <= 1; j++ {
					g.M("At", id, 0, []int{i, j})
					g.M("Set", id, 0, []int{i, j}, 16)
					g.M("AddTo", id, 0, []int{i, j}, 16)
					g.M("MulTo", id, 0, []int{i, j}, 16)
					g.free(g.M("Sub", id, 0, []int{0, i, 0, j}))
				}
			}
			for _, kind := range []string{"arr", "blk", "diag", "fmat"} {
				y := g.mk(kind, 2, 2)
				for _, op := range []string{"Add", "Subt", "Mul"} {
					g.free(g.M(op, id, y, nil))
					g.free(g.M(op, y, id, nil))
				}
				g.M("Eq", id, y, nil)
				g.M("Eq", y, id, nil)
				g.drop(y)
			}
			for j := range matKinds {
				y := g.N("Empty", 0, []int{j})
				g.M("Eq", id, y, nil)
				g.drop(y)
			}
		})
	}
	// a row-array matrix takes the shape of what is first written to it
	fill := func(d [][]int, i, j int) {
		g.script(func() {
			id := g.N("Empty", 0, []int{0})
			y := g.raw2(d)
			g.M("SetSub", id, y, []int{i, j})
			g.M("Dims", id, 0, nil)
			if g.pick(2) == 0 {
				g.M("SetSub", id, 0, []int{0, 0})
			}
			if len(d) > 0 && len(d[0]) > 0 {
				g.R(y, 8, 0, 0)
			}
			if r, c := g.dims(id); r == 0 {
				z := g.raw2(matOf(1+g.pick(3), 1+g.pick(3), g.quarter))
				g.M("SetSub", id, z, []int{0, 0})
				r, c = g.dims(id)
				if r == 0 {
					return
				}
				g.R(z, 8, r-1, c-1)
			}
			for k := 0; k < 12; k++ {
				r, c := g.dims(id)
				g.write(id, pickOf(g, writeRoutes), g.pick(r), g.pick(c))
				g.read(id, pickOf(g, readRoutes), g.pick(r), g.pick(c))
			}
			z := g.raw2(matOf(1+g.pick(3), 1+g.pick(3), g.quarter))
			g.M("SetSub", id, z, []int{g.pick(3), g.pick(3)})
		})
	}
	for _, d := range [][][]int{{}, {{}}, {{16}}, {{16, 32}, {48}}, {{16}, {32, 48}}, {{16, 0}, {32, 48}, {}}, {{}, {16}}, {{16}, {}}, {{16, 32, 48}, {-16, 8, 4}}} {
		for i := -1; i <= 2; i++ {
			for j := -1; j <= 2; j++ {
				fill(d, i, j)
			}
		}
	}
	for _, sh := range []shape{{1, 1}, {1, 5}, {5, 1}, {3, 4}, {52, 2}, {2, 53}, {65, 65}} {
		fill(matOf(sh.r, sh.c, g.quarter), 0, 0)
	}
}

// ragged returns rows of which, half of the time, one is shorter or longer.
func (g *gen) ragged(r, c int) [][]int {
	m := matOf(r, c, g.quarter)
	if i := g.pick(r); g.pick(2) == 0 {
		if g.pick(3) > 0 {
			m[i] = m[i][:c-1]
		} else {
			m[i] = append(m[i], 16)
		}
	}
	return m
}

func (g *gen) walk(id int, ord string, upd int, op string, a []int) {
	e := &ev{T: "W", Op: op, X: id, I: a, Upd: upd, Ord: ord, Fin: g.quarter(), Z: g.pick(6)}
	if op == "u5" && g.objs[id].k == "diag" {
		e.Z = 7 // keeps off the diagonal
	}
	if a != nil {
		e.Bnd = 1
	}
	g.do(e)
}

// C05: traversals, whole and bounded.
func driveC05(g *gen) {
	// visitors that write to the matrix and read from it as they go
	for _, kind := range matKinds {
		for _, sh := range []shape{{1, 1}, {1, 4}, {4, 1}, {2, 3}, {3, 3}, {2, 2}, {2, 54}, {54, 2}} {
			if kind == "diag" && sh.r != sh.c {
				continue
			}
			for _, ord := range []string{"row", "col", "opt"} {
				kind, sh, ord := kind, sh, ord
				g.script(func() {
					id := g.mk(kind, sh.r, sh.c)
					for k := 0; k < 8; k++ {
						e := &ev{T: "W", Op: "re", X: id, Upd: g.pick(2), Ord: ord, Fin: 32, Z: g.pick(12)}
						if k < 4 {
							e.Upd = 1
						}
						if kind == "diag" {
							e.Z += 100
						}
						if k%2 == 1 {
							a, b := g.rangeOf(sh.r)
							c, d := g.rangeOf(sh.c)
							e.I, e.Bnd = []int{a, b, c, d}, 1
						}
						g.do(e)
					}
				})
				// visitors that do not come back, from every visit and past the last
				g.script(func() {
					id := g.mk(kind, sh.r, sh.c)
					last := sh.r * sh.c
					if last > 12 {
						last = 12
					}
					for k := 0; k <= last; k++ {
						e := &ev{T: "W", Op: "bk", X: id, Upd: 1, Ord: ord, Fin: 32, Z: k}
						if last == 12 && k > 3 {
							e.Z = g.pick(sh.r*sh.c) % 100
						}
						if k%4 == 3 {
							e.Upd = 0
						}
						if kind == "diag" {
							e.Z += 100
						}
						if g.pick(3) == 0 {
							a, b := g.rangeOf(sh.r)
							c, d := g.rangeOf(sh.c)
							e.I, e.Bnd = []int{a, b, c, d}, 1
						}
						g.do(e)
						if k%3 == 2 {
							// whole, after one that was broken off
							op := "u1"
							if kind == "diag" {
								op = "u3"
							}
							g.walk(id, ord, g.pick(2), op, nil)
						}
					}
				})
			}
		}
	}
	for _, kind := range matKinds {
		shapes := g.shapesFor(kind, 4, true)
		if kind == "blk" {
			shapes = append(shapes, shape{2, 160}, shape{160, 2})
		}
		for _, sh := range shapes {
			for _, ord := range []string{"row", "col", "opt"} {
				for upd := 0; upd < 2; upd++ {
					kind, sh, ord, upd := kind, sh, ord, upd
					op := "u1"
					if kind == "diag" {
						op = "u3"
					}
					small := sh.r <= 4 && sh.c <= 4
					g.script(func() {
						id := g.mk(kind, sh.r, sh.c)
						g.walk(id, ord, upd, op, nil)
						if kind == "diag" && small {
							g.walk(id, ord, upd, "u4", nil)
							g.walk(id, ord, upd, "u2", nil)
						} else if small {
							g.walk(id, ord, upd, "u2", nil)
						}
					})
					if small {
						g.script(func() {
							id := g.mk(kind, sh.r, sh.c)
							for a := 0; a < sh.r; a++ {
								for b := a; b < sh.r; b++ {
									for c := 0; c < sh.c; c++ {
										for d := c; d < sh.c; d++ {
											g.walk(id, ord, upd, op, []int{a, b, c, d})
										}
									}
								}
							}
						})
					} else {
						g.script(func() {
							id := g.mk(kind, sh.r, sh.c)
							n := 4
							if g.thorough {
								n = 30
							}
							for k := 0; k < n; k++ {
								a, b := g.rangeOf(sh.r)
								c, d := g.rangeOf(sh.c)
								if k == 0 { // from the first block to the last
									a, b, c, d = g.pick(3)%sh.r, sh.r-1, g.pick(3)%sh.c, sh.c-1
								}
								for (b-a+1)*(d-c+1) > 1200 {
									if b-a > d-c {
										a = b - (b-a)/2
									} else {
										c = d - (d-c)/2
									}
								}
								g.walk(id, ord, upd, op, []int{a, b, c, d})
							}
						})
					}
				}
			}
		}
	}
	// entries and answers that are not numbers
	for _, kind := range matKinds {
		for _, sh := range []shape{{1, 1}, {2, 2}, {2, 3}, {3, 3}, {53, 3}, {3, 54}} {
			if kind == "diag" && sh.r != sh.c {
				continue
			}
			for _, ord := range []string{"row", "col", "opt"} {
				for bnd := 0; bnd < 2; bnd++ {
					kind, sh, ord, bnd := kind, sh, ord, bnd
					g.script(func() {
						id := g.mkM(kind, matOf(sh.r, sh.c, g.special))
						a := []int{0, sh.r - 1, 0, sh.c - 1}
						if bnd == 0 {
							a = nil
						}
						g.walk(id, ord, 0, "", a)
						g.walk(id, ord, 1, "u5", a)
						g.walk(id, ord, 1, "", a)
						g.walk(id, ord, 0, "", a)
						g.walk(id, ord, 1, "u5", a)
						g.walk(id, ord, 1, "u3", a)
					})
				}
			}
		}
	}
	g.repeat(100, func() {
		kind := pickOf(g, matKinds)
		sh := shape{1 + g.pick(6), 1 + g.pick(6)}
		if kind == "diag" {
			sh.c = sh.r
		}
		id := g.mk(kind, sh.r, sh.c)
		for k := 0; k < 12; k++ {
			op := pickOf(g, []string{"u1", "u2"})
			if kind == "diag" {
				op = pickOf(g, []string{"u3", "u3", "u4"})
			}
			var a []int
			if g.pick(3) > 0 {
				p, q := g.rangeOf(sh.r)
				r, s := g.rangeOf(sh.c)
				a = []int{p, q, r, s}
			}
			g.walk(id, pickOf(g, []string{"row", "col", "opt"}), g.pick(2), op, a)
			if g.pick(2) == 0 {
				i, j := g.pick(sh.r), g.pick(sh.c)
				if kind == "diag" {
					j = i
				}
				g.write(id, "Set", i, j)
			}
		}
	})
}

// C06: a diagonal matrix next to everything.
func driveC06(g *gen) {
	// every block at every place, fitting the diagonal except for one entry
	for n := 1; n <= 4; n++ {
		for h := 1; h <= n; h++ {
			for w := 1; w <= n; w++ {
				n, h, w := n, h, w
				g.script(func() {
					id := g.mk("diag", n, n)
					for r := 0; r+h <= n; r++ {
						for c := 0; c+w <= n; c++ {
							for odd := -1; odd < h*w; odd++ {
								s := matOf(h, w, func() int { return 0 })
								for i := range s {
									for j := range s[i] {
										if r+i == c+j {
											s[i][j] = g.quarter()
										} else if i*w+j == odd {
											s[i][j] = pickOf(g, []int{16, -4, cNaN, cTPos})
										}
									}
								}
								a := g.raw2(s)
								g.M("SetSub", id, a, []int{r, c})
								g.drop(a)
							}
						}
					}
				})
			}
		}
	}
	// lines likewise
	for n := 2; n <= 4; n++ {
		n := n
		g.script(func() {
			id := g.mk("diag", n, n)
			for i := 0; i < n; i++ {
				for odd := 0; odd < n; odd++ {
					v := make([]int, n)
					v[odd], v[i] = pickOf(g, []int{16, -4, cNaN, cTPos}), g.quarter()
					a := g.raw1(v)
					b := g.mkV(pickOf(g, vecKinds), v)
					c := g.mkM(pickOf(g, []string{"arr", "blk", "fmat"}), [][]int{v})
					col := make([][]int, n)
					for k := range col {
						col[k] = []int{v[k]}
					}
					d := g.mkM(pickOf(g, []string{"arr", "blk", "fmat"}), col)
					g.M("SetRow", id, a, []int{i})
					g.M("SetCol", id, a, []int{i})
					g.M("SetRowVec", id, b, []int{i})
					g.M("SetColVec", id, b, []int{i})
					g.M("SetRowMat", id, c, []int{i})
					g.M("SetColMat", id, d, []int{i})
					g.drop(a, b, c, d)
				}
			}
		})
	}
	// next to zero is not zero
	for n := 2; n <= 4; n++ {
		n := n
		g.script(func() {
			id := g.mk("diag", n, n)
			for _, z := range []int{cTPos, cTNeg, cNaN, cPInf, cNInf, 1, -1} {
				for k := 0; k < 4; k++ {
					i := g.pick(n)
					j := (i + 1 + g.pick(n-1)) % n
					g.M("Set", id, 0, []int{i, j}, z)
					g.M("AddTo", id, 0, []int{i, j}, z)
					v := make([]int, n)
					v[i], v[j] = g.quarter(), z
					a := g.raw1(v)
					g.M("SetRow", id, a, []int{i})
					g.M("SetCol", id, a, []int{i})
					b := g.mkV(pickOf(g, vecKinds), v)
					g.M("SetRowVec", id, b, []int{i})
					g.M("SetColVec", id, b, []int{i})
					c := g.mkM(pickOf(g, []string{"arr", "blk", "fmat"}), [][]int{v})
					g.M("SetRowMat", id, c, []int{i})
					g.drop(a, b, c)
					s := matOf(2, 2, func() int { return 0 })
					s[k/2][1-k/2] = z
					d := g.raw2(s)
					p := g.pick(n - 1)
					g.M("SetSub", id, d, []int{p, p})
					g.drop(d)
					m := matOf(n, n, func() int { return 0 })
					m[i][j] = z
					y := g.mkM(pickOf(g, []string{"arr", "blk", "fmat"}), m)
					if z < cOff {
						g.free(g.M("Add", id, y, nil))
						g.free(g.M("Subt", id, y, nil))
						g.free(g.M("SAdd", id, 0, nil, z))
					}
					g.drop(y)
					g.M("At", id, 0, []int{i, j})
				}
			}
		})
	}
	for n := 1; n <= 4; n++ {
		n := n
		for _, other := range operandKinds {
			other := other
			g.script(func() { g.arithmetic("diag", other, shape{n, n}, 1+g.pick(3), g.quarter) })
			// operands that are diagonal although dense
			g.script(func() {
				id := g.mk("diag", n, n)
				m := matOf(n, n, func() int { return 0 })
				for i := range m {
					m[i][i] = g.quarter()
				}
				y := g.mkM(other, m)
				for _, op := range []string{"Add", "Subt", "Mul", "PreMul"} {
					g.free(g.M(op, id, y, nil))
				}
				if n > 1 {
					g.M("Eq", id, y, nil)
					y2 := g.mk("arr", n, n)
					g.free(g.M("Add", id, y2, nil))
				}
			})
		}
		g.script(func() { g.unary("diag", shape{n, n}, g.quarter) })
		for _, rd := range readRoutes {
			rd := rd
			g.script(func() {
				id := g.mk("diag", n, n)
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						g.read(id, rd, i, j)
					}
				}
				for a := 0; a < n; a++ {
					for b := a; b < n; b++ {
						for c := 0; c < n; c++ {
							for d := c; d < n && rd == "Sub"; d++ {
								g.free(g.M("Sub", id, 0, []int{a, b, c, d}))
							}
						}
					}
				}
			})
		}
		for _, w := range writeRoutes {
			w := w
			g.script(func() {
				id := g.mk("diag", n, n)
				for k := 0; k < 3; k++ {
					for i := 0; i < n; i++ {
						for j := 0; j < n; j++ {
							g.write(id, w, i, j)
						}
					}
				}
			})
		}
		for p := 0; p <= 5; p++ {
			p := p
			g.script(func() {
				id := g.mkM("diag", matOf(n, n, func() int { return 16 * (g.pick(7) - 3) }))
				g.free(g.M("Pow", id, 0, []int{p}))
			})
		}
		for rep := 0; rep < 6; rep++ {
			g.script(func() {
				// inverses: a diagonal of powers of two, and some zeros
				d := vecOf(n, func() int { return pickOf(g, []int{16, -16, 32, -32, 8, 4, 64, 128, -4, 16, 0}) })
				m := matOf(n, n, func() int { return 0 })
				for i := range m {
					m[i][i] = d[i]
				}
				id := g.mkM("diag", m)
				g.free(g.M("Inv", id, 0, []int{0}, 0))
				for _, t := range []int{0, 4, 3, 5, 8, 16, 17, 32, 128} {
					g.free(g.M("Inv", id, 0, nil, t))
					g.M("IsSing", id, 0, nil, t)
				}
			})
		}
		for _, ord := range []string{"row", "col", "opt"} {
			for upd := 0; upd < 2; upd++ {
				for z := 0; z < n*n; z++ {
					ord, upd, z := ord, upd, z
					g.script(func() {
						id := g.mk("diag", n, n)
						g.do(&ev{T: "W", Op: "u4", X: id, Upd: upd, Ord: ord, Fin: 32, Z: z})
						g.do(&ev{T: "W", Op: "u3", X: id, Upd: upd, Ord: ord, Fin: 32, Z: z})
					})
				}
			}
		}
	}
	// the dimension beyond which general factories choose blocks
	for _, n := range []int{1, 2, 3, 4, 10, 58, 66} {
		for _, at := range []int{0, n / 2, n - 1, 9, 52, 53, 56} {
			if at >= n {
				continue
			}
			at := at
			g.script(func() {
				// one small entry, wherever it is
				m := matOf(n, n, func() int { return 0 })
				for i := range m {
					m[i][i] = pickOf(g, []int{16, -32, 64})
				}
				m[at][at] = pickOf(g, []int{0, 1, -1})
				id := g.mkM("diag", m)
				g.M("IsSing", id, 0, nil, 2)
				g.free(g.M("Inv", id, 0, nil, 2))
				g.free(g.M("Inv", id, 0, nil, 0))
				m[at][at] = 4
				id = g.mkM("diag", m)
				g.M("IsSing", id, 0, nil, 3)
				g.free(g.M("Inv", id, 0, nil, 3))
			})
		}
	}
	for _, n := range []int{53, 66} {
		n := n
		g.script(func() {
			id := g.mk("diag", n, n)
			for _, k := range []string{"arr", "blk", "diag"} {
				y := g.mk(k, n, n)
				g.free(g.M("Mul", id, y, nil))
				g.free(g.M("PreMul", id, y, nil))
				g.drop(y)
			}
			g.free(g.M("T", id, 0, nil))
			g.free(g.M("Data", id, 0, nil))
			g.free(g.M("Copy", id, 0, nil))
		})
	}
	g.repeat(120, func() {
		n := 1 + g.pick(4)
		id := g.mk("diag", n, n)
		ids := []int{id}
		for k := 0; k < 30 && g.tame(true); k++ {
			x := pickOf(g, ids)
			i, j := g.pick(n), g.pick(n)
			if g.pick(3) == 0 {
				j = i
			}
			switch g.pick(4) {
			case 0:
				g.write(x, pickOf(g, writeRoutes), i, j)
			case 1:
				g.read(x, pickOf(g, readRoutes), i, j)
			case 2:
				r, y := g.derive(x, pickOf(g, resultOps))
				if y != 0 {
					g.drop(y)
				}
				if r != 0 && g.objs[r].k == "diag" && g.mat(r).RowDimension() == n && len(ids) < 5 {
					ids = append(ids, r)
				} else {
					g.free(r)
				}
			case 3:
				y := g.mk(pickOf(g, operandKinds), n, n)
				g.free(g.M(pickOf(g, []string{"Add", "Subt", "Mul", "PreMul"}), x, y, nil))
				g.drop(y)
			}
		}
	})
}

// neutral performs a request of x whose result has the contents of an operand:
// nothing is added, multiplied by one, cut off.
func (g *gen) neutral(x int, op string) (id, y int) {
	r, c := g.dims(x)
	kind := g.objs[x].k
	zero := func() int { return 0 }
	one := func(n int) [][]int {
		m := matOf(n, n, zero)
		for i := range m {
			m[i][i] = 16
		}
		return m
	}
	kinds := operandKinds
	if kind == "diag" {
		kinds = []string{"diag"}
	}
	switch op {
	case "SAdd":
		id = g.M(op, x, 0, nil, 0)
	case "SMul":
		id = g.M(op, x, 0, nil, 16)
	case "Add", "Subt":
		k := pickOf(g, kinds)
		if k == "diag" && r != c {
			k = "arr"
		}
		y = g.mkM(k, matOf(r, c, zero))
		id = g.M(op, x, y, nil)
	case "Mul":
		y = g.mkM(pickOf(g, kinds), one(c))
		id = g.M(op, x, y, nil)
	case "PreMul":
		y = g.mkM(pickOf(g, kinds), one(r))
		id = g.M(op, x, y, nil)
	case "Pow":
		if r == c {
			id = g.M(op, x, 0, []int{1})
		}
	case "Sub":
		id = g.M(op, x, 0, []int{0, r - 1, 0, c - 1})
	case "Select":
		e := g.ev("M", op, x, 0, nil)
		for i := 0; i < r; i++ {
			e.RS = append(e.RS, i)
		}
		for j := 0; j < c; j++ {
			e.CS = append(e.CS, j)
		}
		id = g.do(e)
	case "T", "Copy", "Data":
		id = g.M(op, x, 0, nil)
	case "Inv":
		if kind == "diag" {
			id = g.M(op, x, 0, []int{0}, 0)
		}
	case "RowMat", "RowVec", "Row":
		id = g.M(op, x, 0, []int{r - 1})
	case "ColMat", "ColVec", "Col":
		id = g.M(op, x, 0, []int{c - 1})
	case "Op":
		y = g.raw1(g.quarters(c))
		id = g.M(op, x, y, nil)
	case "OpVec":
		y = g.mkV(pickOf(g, vecKinds), g.quarters(c))
		id = g.M(op, x, y, nil)
	case "PreOp":
		y = g.raw1(g.quarters(r))
		id = g.M(op, x, y, nil)
	case "PreOpVec":
		y = g.mkV(pickOf(g, vecKinds), g.quarters(r))
		id = g.M(op, x, y, nil)
	}
	return
}

var neutralOps = []string{"SAdd", "SMul", "Add", "Subt", "Mul", "PreMul", "Pow", "Sub", "Select", "T", "Copy", "Data", "Inv", "RowMat", "RowVec", "Row", "ColMat", "ColVec", "Col", "Op", "OpVec", "PreOp", "PreOpVec"}

// apart writes to a result and to what it came from.
func (g *gen) apart(x, id, y int) {
	if id == 0 {
		return
	}
	g.pokeAll(id)
	g.pokeAll(x)
	if y != 0 {
		g.pokeAll(y)
	}
	g.pokeAll(id)
}

func (g *gen) neutrals() {
	for _, kind := range matKinds {
		for _, op := range neutralOps {
			for _, sh := range []shape{{1, 1}, {2, 2}, {1, 3}, {3, 1}} {
				// an arbitrary matrix, one, zero, a symmetric matrix
				for v := 0; v < 4; v++ {
					kind, op, sh, v := kind, op, sh, v
					if sh.r != sh.c && (v == 1 || v == 3 || kind == "diag") {
						continue
					}
					g.script(func() {
						m := matOf(sh.r, sh.c, func() int {
							if v%3 == 0 {
								return g.quarter()
							}
							return 0
						})
						for i := range m {
							for j := range m[i] {
								switch {
								case v == 1 && i == j:
									m[i][j] = 16
								case v == 3 && j < i:
									m[i][j] = m[j][i]
								case kind == "diag" && i == j && op == "Inv":
									m[i][j] = pickOf(g, []int{16, -16})
								case kind == "diag" && i != j:
									m[i][j] = 0
								}
							}
						}
						x := g.mkM(kind, m)
						id, y := g.neutral(x, op)
						g.apart(x, id, y)
					})
				}
			}
		}
	}
	for _, op := range []string{"AppVec", "SubVec", "Add", "Subt", "EMul", "EDiv", "MapAdd", "MapMul", "CopyFrom", "Comb", "ToArr", "Copy", "Outer", "VCopy", "VTwo", "VTwoArr"} {
		for n := 0; n <= 3; n++ {
			for _, k2 := range []string{"vec", "fvec"} {
				for side := 0; side < 2; side++ {
					op, n, k2, side := op, n, k2, side
					g.script(func() {
						zero := func() int { return 0 }
						one := func() int { return 16 }
						v := [2][]int{g.quarters(n), {}}
						switch op {
						case "Add", "Subt":
							v[1] = vecOf(n, zero)
						case "EMul", "EDiv":
							v[1] = vecOf(n, one)
						case "Outer":
							v[1] = []int{16}
						case "CopyFrom", "Comb":
							v[1] = v[0]
						}
						if side == 1 && op != "EDiv" {
							v[0], v[1] = v[1], v[0]
						}
						x := g.mkV("vec", v[0])
						y := 0
						var id int
						switch op {
						case "SubVec":
							id = g.V(op, x, 0, []int{0, n})
						case "ToArr", "Copy":
							id = g.V(op, x, 0, nil)
						case "MapAdd":
							g.V(op, x, 0, nil, 0)
						case "MapMul":
							g.V(op, x, 0, nil, 16)
						case "Comb":
							y = g.mkV(k2, v[1])
							g.V(op, x, y, nil, 0, 16)
						case "CopyFrom":
							y = g.mkV(k2, v[1])
							g.V(op, x, y, nil)
						case "VCopy":
							y = g.mkV(k2, v[1])
							id = g.N(op, y, nil)
						case "VTwo", "VTwoArr", "Outer":
							if op == "VTwoArr" {
								k2 = "vec"
							}
							y = g.mkV(k2, v[1])
							e := g.ev("N", op, 0, x, nil)
							e.Z = y
							id = g.do(e)
						default:
							y = g.mkV(k2, v[1])
							id = g.V(op, x, y, nil)
						}
						if id == 0 {
							g.pokeAll(x)
							if y != 0 {
								g.pokeAll(y)
								g.pokeAll(x)
							}
							return
						}
						g.apart(x, id, y)
					})
				}
			}
		}
	}
}

func size(o *obj) int {
	n := 0
	for _, r := range o.prev {
		n += len(r)
	}
	return n
}
