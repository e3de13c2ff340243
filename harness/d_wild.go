package main

import "math"

func init() { drivers["C26"] = driveC26 }

var wildKinds = []string{"LU", "Chol", "RChol", "QR", "RRQR", "SVD", "Eigen", "Hess", "Schur", "Tri", "Bi"}
var anyKind = []string{"arr", "arr", "blk", "fmat"}

var extremes = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 1e300, -1e200, 1e160, 1e154,
	5e-324, -5e-324, 1e-310, 2.3e-308, 1e-300, -1e-170, 1e-154, 1e-20, 1e17, 0, 1, -1}

// A family of numbers for the entries of a matrix.
func (g *gen) wildEntry() func(i, j int) float64 {
	small := func() float64 { return float64(g.pick(7) - 3) }
	p := 1 + g.pick(12)
	x := pickOf(g, extremes)
	t := g.pick(300)
	switch g.pick(10) {
	case 0: // all kinds
		return func(i, j int) float64 { return pickOf(g, extremes) }
	case 1: // a few
		return func(i, j int) float64 {
			if g.pick(p+2) == 0 {
				return pickOf(g, extremes)
			}
			return small()
		}
	case 2: // one number, here and there
		return func(i, j int) float64 {
			if g.pick(p+1) == 0 {
				return x
			}
			return small()
		}
	case 3: // one number
		return func(i, j int) float64 { return x }
	case 4: // graded
		return func(i, j int) float64 { return g.rng.NormFloat64() * math.Pow(10, float64((i+j)*(t-150)/4)) }
	case 5: // orders of magnitude apart
		return func(i, j int) float64 { return g.rng.NormFloat64() * math.Pow(10, float64(g.pick(2*t+1)-t)) }
	case 6: // one scale
		return func(i, j int) float64 { return g.rng.NormFloat64() * math.Pow(10, float64(2*t-300)) }
	case 7: // sparse, of ordinary numbers
		return func(i, j int) float64 {
			if g.pick(3) == 0 {
				return g.rng.NormFloat64()
			}
			return 0
		}
	case 8: // a line of one number
		return func(i, j int) float64 {
			if i == p%4 || (p > 6 && j == p%3) {
				return x
			}
			return small()
		}
	default:
		return func(i, j int) float64 { return g.rng.NormFloat64() }
	}
}

func (g *gen) wildMatrix(r, c int) [][]float64 {
	f := g.wildEntry()
	a := make([][]float64, r)
	for i := range a {
		a[i] = make([]float64, c)
		for j := range a[i] {
			a[i][j] = f(i, j)
		}
	}
	if r != c {
		return a
	}
	switch g.pick(6) {
	case 0, 1: // symmetric
		for i := range a {
			for j := 0; j < i; j++ {
				a[i][j] = a[j][i]
			}
		}
	case 2: // symmetric with a heavy diagonal
		for i := range a {
			s := 0.0
			for j := range a {
				if j < i {
					a[i][j] = a[j][i]
				}
				s += math.Abs(a[i][j])
			}
			a[i][i] = s + math.Abs(a[i][i])
		}
	case 3: // triangular or diagonal
		k := g.pick(3)
		for i := range a {
			for j := range a {
				if (k != 0 && i > j) || (k != 1 && i < j) {
					a[i][j] = 0
				}
			}
		}
	}
	return a
}

// wild builds a decomposition and asks it everything, twice, in any order.
func (g *gen) wild(kind string, a [][]float64) {
	s := g.ws
	mk := pickOf(g, anyKind)
	if isDiagonal(a) && g.pick(2) == 0 {
		mk = "diag"
	}
	m := s.mat(mk, a)
	var thr []float64
	if g.pick(4) == 0 {
		thr = []float64{pickOf(g, extremes), pickOf(g, extremes)}
	}
	d := s.build(kind, m, thr)
	if d == 0 {
		return
	}
	if g.pick(3) == 0 {
		s.write(m, 0, 0, pickOf(g, extremes))
	}
	g.wildAsk(d, len(a), len(a[0]))
	if g.pick(3) == 0 {
		// once more, from another copy
		if d := s.build(kind, s.mat(pickOf(g, anyKind), a), thr); d != 0 {
			g.wildAsk(d, len(a), len(a[0]))
		}
	}
}

func isDiagonal(a [][]float64) bool {
	for i := range a {
		for j := range a[i] {
			if i != j && a[i][j] != 0 {
				return false
			}
		}
	}
	return len(a) == len(a[0])
}

func (g *gen) wildAsk(d, rows, cols int) {
	s := g.ws
	qs := append([]string{}, wildQueries[s.kinds[d]]...)
	cut := math.Abs(pickOf(g, extremes))
	if g.pick(2) == 0 {
		cut = math.Pow(10, float64(-g.pick(20)))
	}
	g.rng.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	for _, q := range qs {
		s.get(d, q, cut)
	}
	for i := 0; i < 3; i++ {
		s.get(d, pickOf(g, qs), math.Abs(pickOf(g, extremes)))
	}
	if _, ok := s.decs[d].(solving); !ok {
		return
	}
	rhs := func(r, c int) [][]float64 {
		f := g.wildEntry()
		b := make([][]float64, r)
		for i := range b {
			b[i] = make([]float64, c)
			for j := range b[i] {
				b[i][j] = f(i, j)
			}
		}
		return b
	}
	k, b := pickOf(g, anyKind), rhs(rows, 1)
	s.solve(d, "vec", k, b)
	mk, mb := pickOf(g, anyKind), rhs(rows, 1+g.pick(4))
	s.solve(d, "mat", mk, mb)
	s.solve(d, "inv", "", nil)
	s.solve(d, "vec", k, b)
	if g.pick(3) == 0 {
		// the columns in another order, and one of them replaced
		cs, x := g.rng.Perm(len(mb[0])), rhs(rows, 1)
		nb := make([][]float64, rows)
		for i := range nb {
			for _, j := range cs {
				nb[i] = append(nb[i], mb[i][j])
			}
			if len(cs) > 1 {
				nb[i][0] = x[i][0]
			}
		}
		s.solve(d, "mat", mk, nb)
	}
	if g.pick(3) == 0 {
		s.solve(d, "inv", "", nil)
	}
	if g.pick(4) == 0 {
		s.solve(d, "mat", pickOf(g, anyKind), rhs(rows+1, 1+g.pick(3)))
		s.solve(d, "vec", pickOf(g, anyKind), rhs(rows+1, 1))
		if rows > 1 {
			s.solve(d, "vec", pickOf(g, anyKind), rhs(rows-1, 1))
		}
	}
	for i := 0; i < 2; i++ {
		s.get(d, pickOf(g, qs), cut)
	}
}

func driveC26(g *gen) {
	for _, k := range wildKinds {
		k := k
		n := 300
		if k == "SVD" || k == "Eigen" || k == "Schur" {
			n = 600
		}
		g.repeat(n, func() {
			r := 1 + g.pick(6)
			c := r
			if k == "QR" || k == "RRQR" || k == "SVD" || k == "Bi" || g.pick(12) == 0 {
				c = 1 + g.pick(6)
			}
			g.wild(k, g.wildMatrix(r, c))
		})
		g.repeat(10, func() {
			n := 7 + g.pick(20)
			g.wild(k, g.wildMatrix(n, n))
		})
		// one entry is not a number, or infinite, wherever it is
		for _, x := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64} {
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					x, i, j := x, i, j
					g.script(func() {
						a := make([][]float64, 3)
						for i := range a {
							a[i] = []float64{1, 2, 3}
							a[i][i] = 9
						}
						a[i][j] = x
						if g.pick(2) == 0 {
							for i := range a {
								for j := 0; j < i; j++ {
									a[i][j] = a[j][i]
								}
							}
						}
						g.wild(k, a)
					})
				}
			}
		}
	}
	g.repeat(150, func() {
		n := g.pick(7)
		f, h := g.wildEntry(), g.wildEntry()
		main, sec := make([]float64, n), []float64{}
		for i := range main {
			main[i] = f(i, i)
			if i > 0 {
				sec = append(sec, h(i, i))
			}
		}
		if g.pick(10) == 0 {
			sec = append(sec, 1)
		}
		if d := g.ws.buildTri(main, sec); d != 0 {
			g.wildAsk(d, n, n)
		}
	})
}
