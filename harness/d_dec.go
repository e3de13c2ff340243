package main

import (
	"math"
	"sort"

	"github.com/jtejido/linear"
)

func init() {
	drivers["C11"] = driveC11
	drivers["C12"] = driveC12
	drivers["C13"] = driveC13
	drivers["C14"] = driveC14
	drivers["C15"] = driveC15
	drivers["C16"] = driveC16
	drivers["C17"] = driveC17
	drivers["C18"] = driveC18
	drivers["C19"] = driveC19
	drivers["C20"] = driveC20
	drivers["C21"] = driveC21
}

// ---------------------------------------------------------------- matrices

func imat(r, c int, f func(i, j int) int) [][]int {
	m := make([][]int, r)
	for i := range m {
		m[i] = make([]int, c)
		for j := range m[i] {
			m[i][j] = f(i, j)
		}
	}
	return m
}

func imul(a, b [][]int) [][]int {
	return imat(len(a), len(b[0]), func(i, j int) int {
		s := 0
		for k := range b {
			s += a[i][k] * b[k][j]
		}
		return s
	})
}

func itr(a [][]int) [][]int {
	return imat(len(a[0]), len(a), func(i, j int) int { return a[j][i] })
}

func ident(n int) [][]int { return imat(n, n, func(i, j int) int { return b2i(i == j)[0] }) }

func idiag(d ...int) [][]int {
	return imat(len(d), len(d), func(i, j int) int {
		if i == j {
			return d[i]
		}
		return 0
	})
}

func (g *gen) between(a, b int) int { return a + g.pick(b-a+1) }

func (g *gen) rnd(r, c, k int) [][]int {
	return imat(r, c, func(i, j int) int { return g.between(-k, k) })
}

// sparse: mostly zeros
func (g *gen) sparse(r, c, k int) [][]int {
	return imat(r, c, func(i, j int) int {
		if g.pick(3) > 0 {
			return 0
		}
		return g.between(-k, k)
	})
}

func (g *gen) perm(n int) []int { return g.rng.Perm(n) }

func permRows(a [][]int, p []int) [][]int {
	r := make([][]int, len(a))
	for i := range a {
		r[i] = a[p[i]]
	}
	return r
}

func symm(a [][]int) [][]int {
	return imat(len(a), len(a), func(i, j int) int {
		if i <= j {
			return a[i][j]
		}
		return a[j][i]
	})
}

// unimodular matrix (determinant 1 or -1) with its inverse
func (g *gen) unimod(n, steps int) (u, v [][]int) {
	u, v = ident(n), ident(n)
	for k := 0; k < steps && n > 1; k++ {
		i, j := g.pick(n), g.pick(n)
		if i == j {
			continue
		}
		f := g.between(-1, 1)
		for c := 0; c < n; c++ { // row i += f row j; inverse: column j -= f column i
			u[i][c] += f * u[j][c]
			v[c][j] -= f * v[c][i]
		}
	}
	return
}

func maxAbs(a [][]int) int {
	m := 0
	for _, r := range a {
		for _, x := range r {
			if x > m {
				m = x
			}
			if -x > m {
				m = -x
			}
		}
	}
	return m
}

func isDiag(a [][]int) bool {
	for i := range a {
		if len(a) != len(a[i]) {
			return false
		}
		for j := range a[i] {
			if i != j && a[i][j] != 0 {
				return false
			}
		}
	}
	return true
}

func isSym(a [][]int) bool {
	for i := range a {
		if len(a) != len(a[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != a[j][i] {
				return false
			}
		}
	}
	return true
}

// all matrices of a shape with entries from vals, in a fixed order
func nth(r, c int, vals []int, k int) [][]int {
	return imat(r, c, func(i, j int) int { x := vals[k%len(vals)]; k /= len(vals); return x })
}

func pow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

// each calls f for every matrix of the shape, in scripts of chunk matrices;
// with stride > 1 only for a sample of about one in stride.
func (g *gen) each(r, c int, vals []int, chunk, stride int, f func(a [][]int)) {
	total := pow(len(vals), r*c)
	n := total / stride
	for lo := 0; lo < n; lo += chunk {
		lo := lo
		g.script(func() {
			for k := lo; k < lo+chunk && k < n; k++ {
				x := k
				if stride > 1 {
					x = k*stride + g.pick(stride)
				}
				f(nth(r, c, vals, x))
			}
		})
	}
}

type sample struct {
	a [][]int
	w [][][]int
}

// low rank, with the factors as witness
func (g *gen) lowRank(r, c, rank, k int) sample {
	b, d := g.rnd(r, rank, k), g.rnd(rank, c, k)
	if g.pick(2) == 0 { // rank exactly as announced
		for i := 0; i < rank && i < r; i++ {
			b[i][i] += 5
		}
		for i := 0; i < rank && i < c; i++ {
			d[i][i] += 5
		}
	}
	b = permRows(b, g.perm(r))
	return sample{imul(b, d), [][][]int{b, d}}
}

func (g *gen) gram(n, rank, k int) sample {
	b := g.rnd(n, rank, k)
	if g.pick(2) == 0 {
		b = g.sparse(n, rank, k)
	}
	return sample{imul(b, itr(b)), [][][]int{b, itr(b)}}
}

// structured square matrices of order n
func (g *gen) structured(n int) []sample {
	var r []sample
	add := func(a [][]int) { r = append(r, sample{a: a}) }
	add(ident(n))
	add(imat(n, n, func(i, j int) int { return 0 }))
	add(imat(n, n, func(i, j int) int { return 1 }))
	add(permRows(ident(n), g.perm(n)))
	add(imat(n, n, func(i, j int) int { return b2i((i+1)%n == j)[0] }))                // cyclic shift
	add(imat(n, n, func(i, j int) int { return 2*b2i(i == j)[0] + b2i(j == i+1)[0] })) // Jordan block
	add(imat(n, n, func(i, j int) int { return b2i(j == i+1)[0] }))                    // nilpotent
	add(imat(n, n, func(i, j int) int { return b2i(j == i-1)[0] }))
	add(imat(n, n, func(i, j int) int { return 2*b2i(i == j)[0] - b2i(i == j+1 || j == i+1)[0] }))
	add(imat(n, n, func(i, j int) int { return b2i(i+j == n-1)[0] }))
	add(imat(n, n, func(i, j int) int { // companion
		if i == 0 {
			return g.between(-3, 3)
		}
		return b2i(j == i-1)[0]
	}))
	add(imat(n, n, func(i, j int) int { // upper triangular
		if i > j {
			return 0
		}
		return g.between(-3, 3)
	}))
	add(imat(n, n, func(i, j int) int {
		if i < j {
			return 0
		}
		return g.between(-3, 3)
	}))
	add(imat(n, n, func(i, j int) int { // graded
		if i == j {
			return 1 << uint(2*(i%6))
		}
		return b2i(i == j+1 || j == i+1)[0]
	}))
	add(imat(n, n, func(i, j int) int { // block diagonal
		if i/2 != j/2 {
			return 0
		}
		return g.between(-3, 3)
	}))
	add(imat(n, n, func(i, j int) int { // skew
		switch {
		case i < j:
			return 1 + (i+j)%3
		case i > j:
			return -1 - (i+j)%3
		}
		return 0
	}))
	add(imat(n, n, func(i, j int) int { return g.between(-2, 2) * b2i(i == j)[0] }))
	add(imat(n, n, func(i, j int) int { // a zero row and a zero column
		if i == n/2 || j == n/3 {
			return 0
		}
		return g.between(-3, 3)
	}))
	add(imat(n, n, func(i, j int) int { return (i + 1) * (j + 1) % 5 }))
	return r
}

var storages = []string{"arr", "blk", "fmat"}

func (g *gen) storage(a [][]int) string {
	if isDiag(a) && g.pick(2) == 0 {
		return "diag"
	}
	return pickOf(g, storages)
}

// ---------------------------------------------------------- decompositions

var quantities = map[string][]string{
	"LU":       {"L", "U", "P", "Pivot", "Det", "NS"},
	"Chol":     {"L", "LT", "Det", "NS"},
	"RChol":    {"Root", "Rank"},
	"QR":       {"Q", "QT", "R", "H", "NS"},
	"RRQR":     {"Q", "QT", "R", "H", "P", "Rank", "NS"},
	"SVD":      {"U", "UT", "V", "VT", "S", "SV", "Norm", "Cond", "ICond", "Rank", "NS", "Cov"},
	"Eigen":    {"V", "VT", "Vec", "D", "Re", "Im", "At", "HasC", "Det", "Sqrt", "NS"},
	"EigenTri": {"V", "VT", "Vec", "D", "Re", "Im", "At", "HasC", "Det", "Sqrt", "NS"},
	"Hess":     {"P", "PT", "H"},
	"Schur":    {"P", "PT", "T"},
	"Tri":      {"Q", "QT", "T", "Main", "Sec"},
	"Bi":       {"U", "B", "V", "Main", "Sec", "Upper"},
}

var thresholds = map[string][]float64{
	"LU": {1e-11}, "Chol": {linear.DEFAULT_RELATIVE_SYMMETRY_THRESHOLD, linear.DEFAULT_ABSOLUTE_POSITIVITY_THRESHOLD},
	"RChol": {1e-9}, "QR": {1e-9}, "RRQR": {1e-9},
}

const dropThreshold = 1e-8

// factors that are handed out by reference, and may be written to
var factors = map[string][]string{
	"LU": {"L", "U", "P"}, "Chol": {"L", "LT"}, "QR": {"Q", "QT", "R", "H"}, "RRQR": {"Q", "QT", "R", "H"},
	"SVD": {"U", "UT", "V", "VT", "S"}, "Eigen": {"V", "VT", "D"},
}

// ask asks for every quantity, in a random order.
func (g *gen) ask(d int, kind string, cut float64) {
	qs := append([]string{}, quantities[kind]...)
	g.rng.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	for _, q := range qs {
		g.askOne(d, kind, q, cut)
	}
}

func (g *gen) cut() float64 {
	if g.pick(2) == 0 {
		return float64(-1 - g.pick(6))
	}
	return pickOf(g, cuts)
}

func (g *gen) askOne(d int, kind, q string, cut float64) {
	switch {
	case q == "Rank" && kind == "RRQR":
		g.ds.get(d, q, dropThreshold)
	case q == "Cov":
		g.ds.get(d, q, cut)
	default:
		g.ds.get(d, q, 0)
	}
}

var cuts = []float64{0.3, 0.7, 1.3, 2.9, 7.3}

// study decomposes x and looks at everything.
func (g *gen) study(kind string, x sample, thr []float64) {
	m := g.ds.mat(g.storage(x.a), x.a)
	d := g.ds.build(kind, m, thr, x.w)
	if d == 0 {
		return
	}
	g.ask(d, kind, g.cut())
	g.ds.peek(m)
}

func (g *gen) squares(f func(x sample)) {
	small := []int{-2, -1, 0, 1, 2}
	st := 1
	g.each(1, 1, []int{-3, -2, -1, 0, 1, 2, 3}, 7, 1, func(a [][]int) { f(sample{a: a}) })
	g.each(2, 2, small, 25, st, func(a [][]int) { f(sample{a: a}) })
	if g.thorough {
		g.each(3, 3, []int{-1, 0, 1}, 60, 1, func(a [][]int) { f(sample{a: a}) })
		g.each(3, 3, small, 60, 500, func(a [][]int) { f(sample{a: a}) })
		g.each(4, 4, []int{0, 1}, 60, 8, func(a [][]int) { f(sample{a: a}) })
	} else {
		g.each(3, 3, []int{-1, 0, 1}, 20, 60, func(a [][]int) { f(sample{a: a}) })
		g.each(4, 4, []int{0, 1}, 20, 600, func(a [][]int) { f(sample{a: a}) })
	}
	for n := 1; n <= 8; n++ {
		n := n
		g.script(func() {
			for _, x := range g.structured(n) {
				f(x)
			}
		})
	}
	g.repeat(40, func() {
		n := g.between(2, 7)
		for k := 0; k < 4; k++ {
			f(sample{a: g.rnd(n, n, g.between(1, 4))})
		}
		f(sample{a: g.sparse(n, n, 3)})
		f(g.lowRank(n, n, g.between(1, n), 2))
	})
	for _, n := range []int{13, 27} {
		n := n
		g.script(func() {
			f(sample{a: g.rnd(n, n, 3)})
			f(g.lowRank(n, n, n-1, 1))
			f(sample{a: g.sparse(n, n, 3)})
		})
	}
	bigs := []int{52, 53, 60}
	if g.thorough {
		bigs = append(bigs, 104, 105)
	}
	for _, n := range bigs {
		n := n
		g.script(func() { f(sample{a: g.rnd(n, n, 3)}) })
		g.script(func() { f(g.lowRank(n, n, n-2, 1)) })
	}
}

func (g *gen) symmetrics(f func(x sample)) {
	g.each(1, 1, []int{-3, -2, -1, 0, 1, 2, 3}, 7, 1, func(a [][]int) { f(sample{a: a}) })
	// upper triangles enumerated
	tri := func(n int, vals []int, chunk, stride int) {
		g.each(1, n*(n+1)/2, vals, chunk, stride, func(v [][]int) {
			k := 0
			a := imat(n, n, func(i, j int) int { return 0 })
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					a[i][j], a[j][i] = v[0][k], v[0][k]
					k++
				}
			}
			f(sample{a: a})
		})
	}
	tri(2, []int{-3, -2, -1, 0, 1, 2, 3}, 30, 1)
	if g.thorough {
		tri(3, []int{-2, -1, 0, 1, 2}, 60, 1)
		tri(4, []int{-1, 0, 1}, 60, 4)
	} else {
		tri(3, []int{-1, 0, 1}, 30, 2)
		tri(4, []int{-1, 0, 1}, 20, 400)
	}
	for n := 1; n <= 8; n++ {
		n := n
		g.script(func() {
			for _, x := range g.structured(n) {
				f(sample{a: symm(x.a)})
			}
			f(sample{a: imat(n, n, func(i, j int) int { return n - (i-j)*(i-j) })})
			f(sample{a: imat(n, n, func(i, j int) int { // arrow
				if i == 0 || j == 0 || i == j {
					return 1 + i + j
				}
				return 0
			})})
		})
	}
	g.repeat(40, func() {
		n := g.between(2, 7)
		for k := 0; k < 4; k++ {
			f(sample{a: symm(g.rnd(n, n, g.between(1, 4)))})
		}
		f(sample{a: symm(g.sparse(n, n, 3))})
		f(g.gram(n, g.between(1, n), 2))
	})
	for _, n := range []int{13, 27} {
		n := n
		g.script(func() {
			f(sample{a: symm(g.rnd(n, n, 3))})
			f(g.gram(n, n-1, 1))
		})
	}
	bigs := []int{53, 60}
	if g.thorough {
		bigs = append(bigs, 104, 105)
	}
	for _, n := range bigs {
		n := n
		g.script(func() { f(sample{a: symm(g.rnd(n, n, 3))}) })
		g.script(func() { f(g.gram(n, n-2, 1)) })
	}
}

func (g *gen) rectangles(f func(x sample)) {
	for r := 1; r <= 4; r++ {
		for c := 1; c <= 4; c++ {
			if r == c {
				continue
			}
			total := pow(3, r*c)
			stride := 1 + total/60
			if g.thorough {
				stride = 1 + total/2000
			}
			g.each(r, c, []int{-1, 0, 1}, 20, stride, func(a [][]int) { f(sample{a: a}) })
		}
	}
	g.repeat(40, func() {
		r, c := g.between(1, 9), g.between(1, 9)
		for k := 0; k < 3; k++ {
			f(sample{a: g.rnd(r, c, g.between(1, 4))})
		}
		f(sample{a: g.sparse(r, c, 3)})
		m := r
		if c < m {
			m = c
		}
		f(g.lowRank(r, c, g.between(1, m), 2))
	})
	shapes := [][2]int{{53, 2}, {2, 53}, {60, 7}, {7, 60}, {20, 11}, {11, 20}, {1, 30}, {30, 1}}
	if g.thorough {
		shapes = append(shapes, [2]int{105, 53}, [2]int{53, 105}, [2]int{110, 5}, [2]int{5, 110})
	}
	for _, s := range shapes {
		s := s
		g.script(func() { f(sample{a: g.rnd(s[0], s[1], 3)}) })
		if s[0] > 1 && s[1] > 1 {
			g.script(func() { f(g.lowRank(s[0], s[1], 2, 1)) })
		}
	}
}

// scaled runs f in scripts whose matrices are scaled by powers of two.
func (g *gen) scaledBy(shs []int, n int, f func()) {
	for _, sh := range shs {
		sh := sh
		for k := 0; k < n; k++ {
			g.script(func() {
				g.ds.reset(sh)
				f()
			})
		}
	}
}

func (g *gen) refused(kind string) {
	g.script(func() {
		for r := 1; r <= 4; r++ {
			for c := 1; c <= 4; c++ {
				if r != c {
					g.study(kind, sample{a: g.rnd(r, c, 3)}, thresholds[kind])
				}
			}
		}
		g.study(kind, sample{a: g.rnd(53, 52, 2)}, thresholds[kind])
		g.study(kind, sample{a: g.rnd(52, 53, 2)}, thresholds[kind])
	})
}

func driveC11(g *gen) {
	f := func(x sample) { g.study("LU", x, thresholds["LU"]) }
	g.squares(f)
	g.refused("LU")
	// what is singular by a large threshold
	g.repeat(25, func() {
		n := g.between(1, 4)
		for _, t := range []float64{1e-9, 0.25, 0.7, 0.77, 2.3, 3.1, 5.5} {
			g.study("LU", sample{a: g.rnd(n, n, 5)}, []float64{t})
			g.study("LU", sample{a: permRows(idiag(vecOf(n, func() int { return g.between(-7, 7) })...), g.perm(n))}, []float64{t})
		}
	})
	g.scaledBy([]int{-120, -40, -6, 10, 20, 100}, 3, func() {
		n := g.between(2, 6)
		f(sample{a: g.rnd(n, n, 4)})
		f(g.lowRank(n, n, n-1, 2))
		for _, x := range g.structured(n) {
			f(x)
		}
	})
}

func (g *gen) lowerTri(n, k int) [][]int {
	return imat(n, n, func(i, j int) int {
		switch {
		case i == j:
			return g.between(1, k)
		case i > j && i-j < 6:
			return g.between(-k, k)
		}
		return 0
	})
}

func driveC12(g *gen) {
	def := thresholds["Chol"]
	f := func(x sample) { g.study("Chol", x, def) }
	g.symmetrics(f)
	g.squares(f)
	g.refused("Chol")
	g.repeat(30, func() {
		n := g.between(1, 8)
		b := g.lowerTri(n, 3)
		f(sample{imul(b, itr(b)), [][][]int{b, itr(b)}})
		b = g.rnd(n, n, 2)
		f(sample{imul(b, itr(b)), [][][]int{b, itr(b)}})
	})
	for _, n := range []int{20, 53, 60} {
		n := n
		g.script(func() {
			b := g.lowerTri(n, 2)
			f(sample{imul(b, itr(b)), [][][]int{b, itr(b)}})
		})
	}
	// asymmetric in one entry
	g.repeat(20, func() {
		n := g.between(2, 14)
		if g.pick(6) == 0 {
			n = pickOf(g, []int{27, 53, 55})
		}
		b := g.lowerTri(n, 2)
		a := imul(b, itr(b))
		i, j := g.pick(n), g.pick(n)
		if g.pick(2) == 0 {
			i, j = g.pick(2), n-1-g.pick(2)
		}
		if i != j {
			a[i][j] += 1 + g.pick(5)
			f(sample{a: a})
			f(sample{a: itr(a)})
		}
	})
	// thresholds
	g.repeat(60, func() {
		n := g.between(2, 5)
		x := g.gram(n, n, 2)
		for i := range x.a {
			x.a[i][i] += g.pick(4)
		}
		x.w = nil
		for k := 0; k < 3; k++ {
			i, j := g.pick(n), g.pick(n)
			x.a[i][j] += g.between(0, 1)
		}
		for _, rel := range []float64{1e-15, 0.07, 0.23, 0.41} {
			g.study("Chol", x, []float64{rel, pickOf(g, []float64{1e-10, 0.3, 0.77, 1.9, 3.1})})
		}
	})
	// pivots exactly at the positivity threshold: with powers of two on the
	// diagonal of the root the elimination makes no rounding error
	g.repeat(40, func() {
		n := g.between(1, 4)
		zeros := g.pick(2)
		b := imat(n, n, func(i, j int) int {
			switch {
			case i == j && zeros == 1 && g.pick(2*n) == 0:
				return 0
			case i == j:
				return pickOf(g, []int{1, 1, 2, 4})
			case i > j:
				return g.between(-3, 3)
			}
			return 0
		})
		for _, pos := range []float64{0, 1, 4, 16, 3.999, 1.001} {
			g.study("Chol", sample{a: imul(b, itr(b))}, []float64{1e-15, pos})
		}
	})
	g.scaledBy([]int{-120, -40, -6, 10, 20, 100}, 3, func() {
		n := g.between(2, 6)
		b := g.lowerTri(n, 3)
		f(sample{imul(b, itr(b)), [][][]int{b, itr(b)}})
		f(g.gram(n, n-1, 2))
	})
}

func driveC13(g *gen) {
	thr := []float64{1e-9}
	f := func(x sample) { g.study("RChol", x, thr) }
	g.refused("RChol")
	// exhaustive roots
	for _, sh := range [][2]int{{2, 1}, {2, 2}, {3, 1}, {3, 2}, {4, 1}} {
		sh := sh
		total := pow(3, sh[0]*sh[1])
		st := 1 + total/400
		if g.thorough {
			st = 1
		}
		g.each(sh[0], sh[1], []int{-1, 0, 1}, 25, st, func(b [][]int) {
			f(sample{imul(b, itr(b)), [][][]int{b, itr(b)}})
		})
		g.each(sh[0], sh[1], []int{-2, 0, 1, 3}, 25, 1+pow(4, sh[0]*sh[1])/200, func(b [][]int) {
			f(sample{imul(b, itr(b)), [][][]int{b, itr(b)}})
		})
	}
	g.repeat(100, func() {
		n := g.between(2, 9)
		for k := 0; k < 4; k++ {
			f(g.gram(n, g.between(1, n), g.between(1, 3)))
		}
		b := g.lowerTri(n, 3)
		b = permRows(b, g.perm(n))
		g.study("RChol", sample{imul(b, itr(b)), [][][]int{b, itr(b)}}, []float64{0})
		// exact in floating point, so that no threshold is needed
		v := imat(n, 1, func(i, j int) int { return pickOf(g, []int{0, 1, -1, 2, -2, 4}) })
		g.study("RChol", sample{imul(v, itr(v)), [][][]int{v, itr(v)}}, []float64{0})
	})
	// not semidefinite
	sy := func(n int, vals []int, stride int) {
		g.each(1, n*(n+1)/2, vals, 40, stride, func(v [][]int) {
			k := 0
			a := imat(n, n, func(i, j int) int { return 0 })
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					a[i][j], a[j][i] = v[0][k], v[0][k]
					k++
				}
			}
			f(sample{a: a})
		})
	}
	sy(2, []int{-3, -2, -1, 0, 1, 2, 3}, 1)
	if g.thorough {
		sy(3, []int{-2, -1, 0, 1, 2}, 2)
		sy(4, []int{-1, 0, 1}, 10)
	} else {
		sy(3, []int{-1, 0, 1}, 2)
		sy(4, []int{-1, 0, 1}, 300)
	}
	g.repeat(20, func() {
		n := g.between(2, 8)
		for k := 0; k < 4; k++ {
			f(sample{a: idiag(vecOf(n, func() int { return g.between(-1, 2) })...)})
			x := g.gram(n, g.between(1, n), 2)
			i := g.pick(n)
			x.a[i][i] = -1 - g.pick(3)
			f(sample{a: x.a})
		}
	})
	for _, n := range []int{20, 53} {
		n := n
		for _, r := range []int{1, 3, n - 1, n} {
			r := r
			g.script(func() { f(g.gram(n, r, 1)) })
		}
	}
	// thresholds that leave something out, or let something negative through
	for _, x := range []float64{0.25, 0.5, 1, 1.5, 4, 20} {
		x := x
		g.repeat(10, func() {
			for k := 0; k < 4; k++ {
				n := g.between(1, 7)
				w := int(4*x) + 3
				g.study("RChol", sample{a: idiag(vecOf(n, func() int { return g.between(-int(x)-g.pick(3), w) })...)}, []float64{x})
				g.study("RChol", g.gram(n, g.between(1, n), g.between(1, 3)), []float64{x})
				y := g.gram(n, g.between(1, n), 2)
				i := g.pick(n)
				y.a[i][i] = -g.pick(int(x) + 3)
				g.study("RChol", sample{a: y.a}, []float64{x})
			}
		})
	}
	g.script(func() { // nothing positive on the diagonal
		for n := 1; n <= 5; n++ {
			f(sample{a: imat(n, n, func(i, j int) int { return 0 })})
			f(sample{a: idiag(make([]int, n)...)})
			a := symm(g.rnd(n, n, 3))
			for i := range a {
				a[i][i] = -g.pick(3)
			}
			f(sample{a: a})
		}
	})
	g.scaledBy([]int{-200, -40, -4, 10, 20, 100}, 4, func() {
		n := g.between(2, 6)
		f(g.gram(n, g.between(1, n), 2))
	})
}

func (g *gen) threshold() []float64 { return []float64{pickOf(g, []float64{1e-9, 1e-9, 0.7, 2.3})} }

func driveC14(g *gen) {
	f := func(x sample) { g.study("QR", x, g.threshold()) }
	g.squares(f)
	g.rectangles(f)
	g.script(func() { g.study("QR", sample{a: g.rnd(4, 4, 3)}, []float64{0}) })
	g.scaledBy([]int{-200, -30, 30, 200}, 3, func() { f(sample{a: g.rnd(g.between(1, 6), g.between(1, 6), 4)}); f(g.lowRank(5, 4, 2, 2)) })
}

func driveC15(g *gen) {
	f := func(x sample) { g.study("RRQR", x, g.threshold()) }
	g.squares(f)
	g.rectangles(f)
	g.scaledBy([]int{-30, 30, 100}, 3, func() { f(sample{a: g.rnd(g.between(1, 6), g.between(1, 6), 4)}); f(g.lowRank(5, 4, 2, 2)) })
	// other thresholds of the rank
	drops := func(x sample) {
		m := g.ds.mat(g.storage(x.a), x.a)
		d := g.ds.build("RRQR", m, g.threshold(), x.w)
		if d == 0 {
			return
		}
		g.ds.get(d, "R", 0)
		for _, c := range []float64{dropThreshold, 0.0625, 0.3, 0.8, 1.7, 3.1, 7.3, 30} {
			g.ds.get(d, "Rank", c)
		}
	}
	g.each(2, 2, []int{-3, 0, 1, 8}, 32, 1, func(a [][]int) { drops(sample{a: a}) })
	g.repeat(40, func() {
		n := g.between(1, 4)
		drops(sample{a: g.rnd(g.between(1, 5), n, g.between(1, 6))})
		drops(g.lowRank(4, 3, 2, 2))
		// graded
		a := g.rnd(n, n, 1)
		for i := range a {
			f := 1 << uint(2*g.pick(4))
			for j := range a[i] {
				a[i][j] *= f
			}
		}
		drops(sample{a: a})
	})
}

func driveC16(g *gen) {
	f := func(x sample) { g.study("SVD", x, nil) }
	g.squares(f)
	g.rectangles(f)
	// singular values of very different sizes
	g.repeat(15, func() {
		n := g.between(2, 4)
		far := func() int { return 1 << uint(pickOf(g, []int{0, 1, 5, 10, 14, 15, 16})) }
		for k := 0; k < 3; k++ {
			d := idiag(vecOf(n, far)...)
			f(sample{a: permRows(d, g.perm(n))})
			f(sample{a: append(permRows(d, g.perm(n)), make([]int, n))})
			i, j := g.pick(n), g.pick(n)
			d[i][j] += g.between(1, 9)
			f(sample{a: d})
			u, v := g.unimod(n, 2)
			if c := imul(imul(u, idiag(vecOf(n, far)...)), v); maxAbs(c) < 1<<17 {
				f(sample{a: c})
			}
		}
	})
	g.scaledBy([]int{-300, -100, -40, -20, 20, 40, 100, 300}, 3, func() {
		f(sample{a: g.rnd(g.between(1, 6), g.between(1, 6), 4)})
		f(g.lowRank(5, 4, 2, 2))
		f(g.lowRank(3, 6, 1, 2))
		for _, x := range g.structured(g.between(2, 4)) {
			f(x)
		}
	})
}

func driveC17(g *gen) {
	f := func(x sample) {
		if !isSym(x.a) {
			return
		}
		g.study("Eigen", x, nil)
	}
	g.symmetrics(f)
	// conjugated diagonals: prescribed multiplicities
	g.repeat(40, func() {
		n := g.between(2, 6)
		d := vecOf(n, func() int { return g.between(-2, 2) })
		v := imat(n, 1, func(i, j int) int { return g.between(-1, 1) })
		a := idiag(d...)
		w := imul(v, itr(v))
		f(sample{a: imat(n, n, func(i, j int) int { return a[i][j] + w[i][j] })})
	})
	// eigenvalues of very different sizes
	g.repeat(12, func() {
		for k := 0; k < 4; k++ {
			a, c := 1<<(10+g.pick(8))-g.pick(1000), 1+g.pick(60)
			b := int(math.Sqrt(float64(a * c)))
			if b > 0 && g.pick(2) == 0 {
				b--
			}
			n := g.between(2, 4)
			at := [2]int{0, 1 + g.pick(n-1)}
			if g.pick(2) == 0 {
				at[0], at[1] = at[1], at[0]
			}
			d := idiag(vecOf(n, func() int { return g.between(1, 9) })...)
			d[at[0]][at[0]], d[at[1]][at[1]] = a, c
			d[at[0]][at[1]], d[at[1]][at[0]] = b, b
			f(sample{a: d})
			f(sample{a: idiag(vecOf(n, func() int { return 1 << g.pick(18) })...)})
		}
	})
	tri := func(n int) {
		main, sec := vecOf(n, func() int { return g.between(-4, 4) }), vecOf(n-1, func() int { return g.between(-1, 2) })
		d := g.ds.buildTri(main, sec)
		if d != 0 {
			g.ask(d, "EigenTri", 0)
		}
	}
	g.repeat(40, func() {
		for k := 0; k < 5; k++ {
			tri(g.between(1, 8))
		}
		for _, s := range [][2]int{{0, 0}, {1, 1}, {3, 1}, {3, 3}, {2, 0}} {
			g.ds.buildTri(vecOf(s[0], func() int { return 1 }), vecOf(s[1], func() int { return 1 }))
		}
	})
	g.script(func() { tri(30); tri(60) })
	// bands of weakly coupled blocks
	g.repeat(20, func() {
		n := g.between(3, 14)
		big := 1 << (2 + g.pick(6))
		main := vecOf(n, func() int { return pickOf(g, []int{big, -big, big + 1, 1, 0, 3}) })
		sec := vecOf(n-1, func() int { return pickOf(g, []int{0, 1, 1, 2, 3, big}) })
		f(sample{a: imat(n, n, func(i, j int) int {
			switch i - j {
			case 0:
				return main[i]
			case 1:
				return sec[j]
			case -1:
				return sec[i]
			}
			return 0
		})})
		if d := g.ds.buildTri(main, sec); d != 0 {
			g.ask(d, "EigenTri", 0)
		}
	})
	g.scaledBy([]int{-150, -30, -10, 10, 30, 150}, 3, func() {
		n := g.between(2, 6)
		f(sample{a: symm(g.rnd(n, n, 4))})
		f(g.gram(n, n-1, 2))
	})
}

func driveC18(g *gen) {
	f := func(x sample) {
		if isSym(x.a) {
			return
		}
		g.study("Eigen", x, nil)
	}
	g.squares(f)
	g.refused("Eigen")
	// prescribed spectra
	g.repeat(60, func() {
		n := g.between(2, 6)
		u, v := g.unimod(n, n)
		d := imat(n, n, func(i, j int) int { return 0 })
		for i := 0; i < n; i++ {
			if i+1 < n && g.pick(2) == 0 {
				a, b := g.between(-2, 2), g.between(1, 3)
				d[i][i], d[i+1][i+1], d[i][i+1], d[i+1][i] = a, a, b, -b
				i++
			} else {
				d[i][i] = g.between(-3, 3)
			}
		}
		f(sample{a: imul(imul(u, d), v)})
	})
	// symmetric but for one entry
	g.repeat(15, func() {
		for k := 0; k < 3; k++ {
			n := g.between(2, 13)
			a := symm(g.rnd(n, n, 3))
			i, j := g.pick(n), g.pick(n)
			if g.pick(2) == 0 {
				i, j = g.pick(2), n-1-g.pick(2)
			}
			a[i][j] += 1 + g.pick(5)
			f(sample{a: a})
			f(sample{a: itr(a)})
		}
	})
	// symmetric to some digits only, and eigenvalues of very different sizes
	g.repeat(20, func() {
		for k := 0; k < 4; k++ {
			n := g.between(2, 4)
			big := 1 << uint(pickOf(g, []int{8, 10, 12, 14, 16, 17, 17, 17}))
			a := symm(g.rnd(n, n, 5))
			for i := range a {
				for j := 0; j <= i; j++ {
					if i != j && g.pick(2) == 0 {
						a[i][j] += big
						a[j][i] = a[i][j]
					}
				}
				if g.pick(2) == 0 {
					a[i][i] += big * pickOf(g, []int{1, -1})
				}
			}
			i, j := g.pick(n), g.pick(n-1)
			if j >= i {
				j++
			}
			if iabs(a[i][j]) < 100 {
				a[i][j] += big
				a[j][i] += big
			}
			a[i][j]++
			f(sample{a: a})
			d := idiag(vecOf(n, func() int { return 1 << uint(g.pick(17)) })...)
			d[i][j] = g.between(1, 9)
			f(sample{a: d})
		}
	})
	g.scaledBy([]int{-150, -60, -30, -10, 10, 20, 40, 150}, 4, func() {
		n := g.between(2, 6)
		f(sample{a: g.rnd(n, n, 4)})
	})
}

func (g *gen) rhs(r int) (string, [][]int) {
	c := pickOf(g, []int{1, 1, 2, 3})
	if g.pick(12) == 0 {
		c = pickOf(g, []int{52, 53, 60})
	}
	return pickOf(g, storages), g.rnd(r, c, 4)
}

func (g *gen) solveAll(d, rows int) {
	g.ds.get(d, "NS", 0)
	todo := []func(){
		func() { g.ds.solve(d, "inv", "", nil) },
		func() { g.ds.solve(d, "vec", "vec", g.rnd(rows, 1, 4)) },
		func() { g.ds.solve(d, "vec", "fvec", g.rnd(rows, 1, 4)) },
		func() { k, b := g.rhs(rows); g.ds.solve(d, "mat", k, b) },
		func() { k, b := g.rhs(rows); g.ds.solve(d, "mat", k, b) },
		func() { g.ds.solve(d, "vec", pickOf(g, vecKinds), g.rnd(rows+pickOf(g, []int{-1, 1, 2}), 1, 4)) },
		func() { g.ds.solve(d, "mat", pickOf(g, storages), g.rnd(rows+pickOf(g, []int{1, 2}), 2, 4)) },
		func() { g.ds.solve(d, "mat", "diag", idiag(vecOf(rows, func() int { return g.between(-3, 3) })...)) },
	}
	for _, i := range g.rng.Perm(len(todo)) {
		todo[i]()
	}
}

func driveC19(g *gen) {
	solve := func(kind string, x sample) {
		m := g.ds.mat(g.storage(x.a), x.a)
		d := g.ds.build(kind, m, thresholds[kind], x.w)
		if d == 0 {
			return
		}
		if kind == "Eigen" {
			g.ds.get(d, "HasC", 0)
		}
		g.solveAll(d, len(x.a))
	}
	any := func(x sample) {
		k := pickOf(g, []string{"LU", "QR", "RRQR", "SVD"})
		if len(x.a) != len(x.a[0]) && k == "LU" {
			k = "SVD"
		}
		solve(k, x)
	}
	small := []int{-2, -1, 0, 1, 2}
	for _, k := range []string{"LU", "QR", "RRQR", "SVD"} {
		k := k
		st := 5
		if g.thorough {
			st = 1
		}
		g.each(2, 2, small, 12, st, func(a [][]int) { solve(k, sample{a: a}) })
		g.each(3, 3, []int{-1, 0, 1}, 10, 10*st*60/5, func(a [][]int) { solve(k, sample{a: a}) })
	}
	g.each(1, 3, []int{-3, -2, -1, 0, 1, 2, 3}, 20, 3, func(v [][]int) {
		a := [][]int{{v[0][0], v[0][1]}, {v[0][1], v[0][2]}}
		solve("Eigen", sample{a: a})
		solve("Chol", sample{a: a})
	})
	for n := 1; n <= 6; n++ {
		n := n
		g.script(func() {
			for _, x := range g.structured(n) {
				any(x)
			}
		})
		g.script(func() {
			for _, x := range g.structured(n) {
				solve("Eigen", sample{a: symm(x.a)})
				solve("Chol", sample{a: symm(x.a)})
			}
		})
	}
	g.repeat(50, func() {
		n := g.between(2, 7)
		for _, k := range []string{"LU", "QR", "RRQR", "SVD"} {
			solve(k, sample{a: g.rnd(n, n, 3)})
			solve(k, g.lowRank(n, n, g.between(1, n), 2))
		}
		solve("Eigen", sample{a: symm(g.rnd(n, n, 3))})
		solve("Eigen", g.gram(n, g.between(1, n), 2))
		b := g.lowerTri(n, 2)
		solve("Chol", sample{imul(b, itr(b)), [][][]int{b, itr(b)}})
		// a general matrix with well separated real eigenvalues
		u, v := g.unimod(n, 3)
		ev := vecOf(n, func() int { return 0 })
		for i, p := range g.perm(9)[:n] {
			ev[i] = p - 4
		}
		a := imul(imul(u, idiag(ev...)), v)
		if !isSym(a) && maxAbs(a) < 60 {
			solve("Eigen", sample{a: a})
		}
		solve("Eigen", sample{a: imat(n, n, func(i, j int) int { return b2i((i+1)%n == j)[0] })})
	})
	// tall systems; wide ones have a solution too
	g.repeat(40, func() {
		c := g.between(1, 4)
		r := c + g.between(1, 5)
		for _, k := range []string{"QR", "RRQR", "SVD"} {
			solve(k, sample{a: g.rnd(r, c, 3)})
			solve(k, g.lowRank(r, c, g.between(1, c), 2))
			if k != "RRQR" || c > 0 {
				solve(k, sample{a: g.rnd(c, r, 3)})
			}
			solve(k, g.lowRank(c, r, g.between(1, c), 2))
		}
	})
	// entries and singular values of very different sizes
	g.repeat(25, func() {
		n := g.between(2, 4)
		pw := func() int { return 1 << uint(2*g.pick(6)) }
		far := func() int { return 1 << uint(pickOf(g, []int{0, 1, 14, 15, 16})) }
		for _, k := range []string{"LU", "QR", "RRQR", "SVD", "Chol", "Eigen"} {
			d := idiag(vecOf(n, pw)...)
			solve(k, sample{a: d})
			solve(k, sample{a: idiag(vecOf(n, far)...)})
			if k == "Chol" || k == "Eigen" {
				b := g.lowerTri(n, 2)
				c := imul(imul(b, d), itr(b))
				if maxAbs(c) < 1<<15 {
					solve(k, sample{a: c})
				}
			} else {
				solve(k, sample{a: permRows(d, g.perm(n))})
				u, v := g.unimod(n, 2)
				c := imul(imul(u, d), v)
				if maxAbs(c) < 1<<15 {
					solve(k, sample{a: c})
				}
			}
		}
	})
	// thresholds of every size decide what is singular
	g.repeat(15, func() {
		n := g.between(1, 4)
		for _, k := range []string{"LU", "QR", "RRQR"} {
			for _, t := range []float64{1e-9, 0.25, 0.7, 2.3, 5.5} {
				a := g.rnd(n+g.pick(2)*b2i(k != "LU")[0], n, 5)
				m := g.ds.mat(g.storage(a), a)
				if d := g.ds.build(k, m, []float64{t}, nil); d != 0 {
					g.solveAll(d, len(a))
				}
			}
		}
	})
	// beyond one block
	for _, n := range []int{53, 60} {
		for _, k := range []string{"LU", "QR", "RRQR", "SVD", "Chol", "Eigen"} {
			n, k := n, k
			g.script(func() {
				// well conditioned: diagonally dominant
				a := g.sparse(n, n, 2)
				if k == "Chol" || k == "Eigen" {
					a = symm(a)
				}
				for i := range a {
					s := 1
					for j := range a[i] {
						if j != i {
							s += iabs(a[i][j])
						}
					}
					a[i][i] = s
				}
				x := sample{a: a}
				m := g.ds.mat(g.storage(a), a)
				d := g.ds.build(k, m, thresholds[k], x.w)
				if d == 0 {
					return
				}
				if k == "Eigen" {
					g.ds.get(d, "HasC", 0)
				}
				g.ds.get(d, "NS", 0)
				g.ds.solve(d, "vec", pickOf(g, vecKinds), g.rnd(n, 1, 4))
				g.ds.solve(d, "mat", pickOf(g, storages), g.rnd(n, 2, 4))
				g.ds.solve(d, "mat", pickOf(g, storages), g.rnd(n, 53, 4))
				if n == 53 {
					g.ds.solve(d, "inv", "", nil)
				}
			})
		}
	}
	// many right-hand sides
	for _, k := range []string{"LU", "QR", "RRQR", "SVD", "Chol", "Eigen"} {
		for _, n := range []int{52, 53, 105, 157} {
			k, n := k, n
			g.script(func() {
				a := [][]int{{4, 1, 0}, {1, 5, 2}, {0, 2, 3}}
				m := g.ds.mat(g.storage(a), a)
				d := g.ds.build(k, m, thresholds[k], nil)
				if d == 0 {
					return
				}
				if k == "Eigen" {
					g.ds.get(d, "HasC", 0)
				}
				g.ds.solve(d, "mat", pickOf(g, storages), g.rnd(3, n, 4))
			})
		}
	}
	for _, k := range []string{"QR", "RRQR", "SVD"} {
		k := k
		g.script(func() { solve(k, sample{a: g.rnd(60, 4, 3)}) })
	}
	g.scaledBy([]int{-100, -40, -6, 10, 20, 100}, 4, func() {
		n := g.between(2, 5)
		any(sample{a: g.rnd(n, n, 3)})
		any(g.lowRank(n, n, n-1, 2))
		solve("Eigen", sample{a: symm(g.rnd(n, n, 3))})
	})
}

func iabs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func driveC20(g *gen) {
	f := func(x sample) {
		g.study("Hess", x, nil)
		g.study("Schur", x, nil)
		g.study("Bi", x, nil)
	}
	g.squares(f)
	g.symmetrics(func(x sample) {
		if isSym(x.a) {
			g.study("Tri", x, nil)
		}
	})
	g.rectangles(func(x sample) { g.study("Bi", x, nil) })
	for _, k := range []string{"Hess", "Schur", "Tri"} {
		g.refused(k)
	}
	g.scaledBy([]int{-200, -40, -10, 10, 40, 200}, 3, func() {
		n := g.between(2, 6)
		g.study("Hess", sample{a: g.rnd(n, n, 4)}, nil)
		g.study("Bi", sample{a: g.rnd(n, g.between(1, 6), 4)}, nil)
		g.study("Tri", sample{a: symm(g.rnd(n, n, 4))}, nil)
	})
	g.scaledBy([]int{-560, -400, 400, 500}, 2, func() {
		n := g.between(3, 6)
		g.study("Hess", sample{a: g.rnd(n, n, 4)}, nil)
	})
	g.scaledBy([]int{-40, -10, 10, 40}, 3, func() {
		n := g.between(2, 6)
		g.study("Schur", sample{a: g.rnd(n, n, 4)}, nil)
	})
}

// C21: histories.
func driveC21(g *gen) {
	kinds := []string{}
	for k := range quantities {
		if k != "EigenTri" {
			kinds = append(kinds, k)
		}
	}
	sort.Strings(kinds)
	input := func(kind string, n int) sample {
		switch kind {
		case "Chol":
			b := g.lowerTri(n, 2)
			return sample{imul(b, itr(b)), [][][]int{b, itr(b)}}
		case "RChol":
			return g.gram(n, g.between(1, n), 2)
		case "Tri":
			return sample{a: symm(g.rnd(n, n, 3))}
		case "Eigen":
			if g.pick(2) == 0 {
				return sample{a: symm(g.rnd(n, n, 3))}
			}
		}
		if g.pick(4) == 0 {
			return sample{a: idiag(vecOf(n, func() int { return g.between(1, 4) })...)}
		}
		return sample{a: g.rnd(n, n, 3)}
	}
	history := func(kind string, n, steps int) {
		x := input(kind, n)
		var ms, ds []int
		st := append([]string{}, storages...)
		if isDiag(x.a) {
			st = append(st, "diag")
		}
		for _, k := range st {
			m := g.ds.mat(k, x.a)
			ms = append(ms, m)
			if d := g.ds.build(kind, m, thresholds[kind], x.w); d != 0 {
				ds = append(ds, d)
			}
		}
		if len(ds) == 0 {
			return
		}
		qs := quantities[kind]
		solver := kind == "LU" || kind == "Chol" || kind == "QR" || kind == "RRQR" || kind == "SVD" || kind == "Eigen"
		for k := 0; k < steps; k++ {
			switch g.pick(6) {
			case 0:
				i, j := g.pick(n), g.pick(n)
				w := g.pick(len(ms))
				if st[w] == "diag" {
					j = i
				}
				g.ds.write(ms[w], i, j, g.between(-5, 5))
			case 1:
				g.ds.peek(pickOf(g, ms))
			case 2:
				if solver {
					d := pickOf(g, ds)
					if kind == "Eigen" {
						g.ds.get(d, "HasC", 0)
					}
					if g.pick(2) == 0 {
						g.ds.solve(d, "vec", pickOf(g, vecKinds), g.rnd(n, 1, 4))
					} else {
						g.ds.solve(d, "mat", pickOf(g, storages), g.rnd(n, 2, 4))
					}
				}
			default:
				g.askOne(pickOf(g, ds), kind, pickOf(g, qs), 0.7)
			}
		}
		// writes to every entry, then everything once more
		for w, m := range ms {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if st[w] != "diag" || i == j {
						g.ds.write(m, i, j, 9)
					}
				}
			}
		}
		for _, d := range ds {
			g.ask(d, kind, 0.7)
			g.ask(d, kind, 0.7)
		}
		for _, m := range ms {
			g.ds.peek(m)
		}
		if fs := factors[kind]; fs != nil && n < 10 {
			for _, d := range ds {
				g.ds.poke(d, pickOf(g, fs))
				g.ask(d, kind, 0.7)
				g.ds.solve(d, "vec", pickOf(g, vecKinds), g.rnd(n, 1, 4))
				g.ds.solve(d, "mat", pickOf(g, storages), g.rnd(n, 2, 4))
			}
		}
	}
	// building leaves the matrix as it was, whatever is in it, and later
	// writes to the matrix do not reach what was built
	still := func(a [][]int) {
		n := len(a)
		for _, k := range kinds {
			x := sample{a: a}
			switch k {
			case "Chol", "RChol":
				x = sample{imul(a, itr(a)), [][][]int{a, itr(a)}}
			case "Tri":
				x.a = symm(a)
			}
			for _, st := range []string{"arr", pickOf(g, storages)} {
				m := g.ds.mat(st, x.a)
				d := g.ds.build(k, m, thresholds[k], x.w)
				g.ds.peek(m)
				if d == 0 {
					continue
				}
				g.ds.write(m, g.pick(n), g.pick(n), 9)
				g.ds.write(m, n-1, 0, -7)
				q := pickOf(g, quantities[k])
				g.askOne(d, k, q, 0.7)
				g.ds.peek(m)
			}
		}
	}
	g.each(2, 2, []int{0, 1, -2}, 9, 1, still)
	g.repeat(30, func() {
		n := g.between(1, 4)
		a := g.rnd(n, n, 2)
		if g.pick(2) == 0 {
			a = g.sparse(n, n, 2)
		}
		still(a)
	})
	for _, k := range kinds {
		k := k
		for n := 1; n <= 4; n++ {
			n := n
			g.repeat(2, func() { history(k, n, 20) })
		}
		// one quantity first, then the others: every order of first requests
		qs := quantities[k]
		g.script(func() {
			x := input(k, 3)
			for _, a := range qs {
				for _, b := range qs {
					m := g.ds.mat(pickOf(g, storages), x.a)
					d := g.ds.build(k, m, thresholds[k], x.w)
					if d == 0 {
						return
					}
					g.ds.write(m, 0, 0, 7)
					g.ds.write(m, 2, 1, 7)
					g.askOne(d, k, a, 0.7)
					g.askOne(d, k, b, 0.7)
					g.askOne(d, k, a, 0.7)
				}
			}
		})
	}
	g.repeat(20, func() { history(pickOf(g, kinds), g.between(5, 8), 30) })
	for _, k := range kinds {
		k := k
		g.script(func() { history(k, 53, 2) })
	}
	// tridiagonal input arrays belong to the caller
	g.repeat(10, func() {
		n := g.between(1, 5)
		main, sec := vecOf(n, func() int { return g.between(-4, 4) }), vecOf(n-1, func() int { return g.between(-1, 2) })
		d := g.ds.buildTri(main, sec)
		if d != 0 {
			g.ask(d, "EigenTri", 0)
			g.ask(d, "EigenTri", 0)
		}
	})
}
