package main

import (
	"math"
	"reflect"

	"github.com/jtejido/linear"
)

type fxm = [][][2]int

// One line of a trace of module DecTrace.
type dev struct {
	T   string    `json:"t"`
	D   int       `json:"d"`
	M   int       `json:"m"`
	K   string    `json:"k"`
	Q   string    `json:"q"`
	I   []int     `json:"i"`
	N   []int     `json:"n"`
	A   [][]int   `json:"a"`
	B2  [][]int   `json:"b2"`
	Thr [][2]int  `json:"thr"`
	W   [][][]int `json:"w"`
	Err int       `json:"err"`
	V   fxm       `json:"v"`
	E   int       `json:"e"`
	Cut [2]int    `json:"cut"`
	Det []details `json:"det"`
}

// A session with decompositions; every matrix of it is an integer matrix
// times 2^sh.
type dsess struct {
	out    *sink
	sh     int
	mats   map[int]linear.RealMatrix
	decs   map[int]interface{}
	kinds  map[int]string
	cols   map[int][]int // scaling of eigenvector columns
	symm   map[int]bool  // whether the matrix was symmetric
	slvrs  map[int]linear.DecompositionSolver
	held   []answer // answers that stay
	turn   int
	solves int
	next   int
	stats  map[string]int
}

// An answer that its receiver keeps: the line that reported it, how to read
// it again, and how to write to it.
type answer struct {
	id    int
	read  func() (fxm, []int)
	write func()
}

// keep decides what becomes of an answer that is the caller's: some are
// written to at once (which must not be seen by anyone else), some are kept
// and read again later (and must be as they were).
func (s *dsess) keep(e *dev, a answer, writable bool) {
	s.turn++
	switch {
	case s.turn%3 == 0 && writable:
		a.write()
	case s.turn%3 != 1:
		e.M = s.next
		a.id = s.next
		s.next++
		s.held = append(s.held, a)
	}
}

// again reads the n oldest of the answers that were kept.
func (s *dsess) again(n int) {
	for ; n > 0 && len(s.held) > 0; n-- {
		a := s.held[0]
		s.held = s.held[1:]
		e := &dev{T: "again", M: a.id}
		s.line(e, func() { e.V, e.N = a.read() })
	}
}

func (s *dsess) reset(sh int) {
	if s.held != nil {
		s.again(len(s.held))
	}
	s.held, s.turn = []answer{}, 0
	s.slvrs = map[int]linear.DecompositionSolver{}
	s.sh, s.next = sh, 1
	s.mats, s.decs, s.kinds, s.cols = map[int]linear.RealMatrix{}, map[int]interface{}{}, map[int]string{}, map[int][]int{}
	s.symm = map[int]bool{}
	s.line(&dev{T: "reset"}, nil)
}

// line runs f (if any) and writes e.
func (s *dsess) line(e *dev, f func()) {
	if e.I == nil {
		e.I = []int{}
	}
	if e.N == nil {
		e.N = []int{}
	}
	if e.A == nil {
		e.A = [][]int{}
	}
	if e.B2 == nil {
		e.B2 = [][]int{}
	}
	if e.Thr == nil {
		e.Thr = [][2]int{}
	}
	if e.W == nil {
		e.W = [][][]int{}
	}
	e.V, e.Det = fxm{}, []details{}
	if e.T == "get" || e.T == "build" || e.T == "solve" {
		s.stats[e.T+"."+e.K+"."+e.Q]++
	}
	hung := *e
	hung.Err = errHang
	s.out.begin(&hung)
	if f != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					e.Err = statusOf(r)
					e.Det = detailsOf(r)
					e.V, e.N, e.E = fxm{}, []int{}, 0
					if e.T == "build" && e.K == "EigenTri" {
						e.I, e.N = hung.I, hung.N
					}
				}
			}()
			f()
		}()
	}
	s.out.end(e)
}

// Contents of a matrix in units of 2^sh.
func (s *dsess) ints(m linear.RealMatrix, sh int) [][]int {
	r := make([][]int, m.RowDimension())
	for i := range r {
		r[i] = make([]int, m.ColumnDimension())
		for j := range r[i] {
			f := math.Ldexp(m.At(i, j), -sh)
			if f != math.Trunc(f) || math.Abs(f) > 1e8 {
				r[i][j] = cOff
			} else {
				r[i][j] = int(f)
			}
		}
	}
	return r
}

func floats(a [][]int, sh int) [][]float64 {
	r := make([][]float64, len(a))
	for i := range a {
		r[i] = make([]float64, len(a[i]))
		for j := range a[i] {
			r[i][j] = math.Ldexp(float64(a[i][j]), sh)
		}
	}
	return r
}

func makeMatrix(kind string, d [][]float64) linear.RealMatrix {
	var m linear.RealMatrix
	var err error
	switch kind {
	case "blk":
		m, err = linear.NewBlockRealMatrixFromSlices(d)
	case "diag":
		v := make([]float64, len(d))
		for i := range d {
			v[i] = d[i][i]
		}
		m, err = linear.NewDiagonalMatrix(v, true)
	default:
		m, err = linear.NewArray2DRowRealMatrixFromSlices(d, true)
	}
	if err != nil {
		panic(abort{})
	}
	if kind == "fmat" {
		return foreignMat{m}
	}
	return m
}

func (s *dsess) mat(kind string, a [][]int) int {
	id := s.next
	s.next++
	s.mats[id] = makeMatrix(kind, floats(a, s.sh))
	s.line(&dev{T: "mat", M: id, K: kind, A: s.ints(s.mats[id], s.sh)}, nil)
	return id
}

func (s *dsess) write(m, i, j, k int) {
	s.line(&dev{T: "write", M: m, I: []int{i, j}, N: []int{k}}, func() {
		s.mats[m].SetEntry(i, j, math.Ldexp(float64(k), s.sh))
	})
}

func (s *dsess) peek(m int) {
	s.line(&dev{T: "peek", M: m, A: s.ints(s.mats[m], s.sh)}, nil)
}

// poke writes to a factor that d hands out.
func (s *dsess) poke(d int, q string) {
	s.line(&dev{T: "poke", D: d, K: s.kinds[d], Q: q}, func() {
		m, ok := reflect.ValueOf(s.decs[d]).MethodByName(q).Call(nil)[0].Interface().(linear.RealMatrix)
		if !ok {
			return
		}
		for i := 0; i < m.RowDimension() && i < m.ColumnDimension(); i++ {
			m.SetEntry(i, i, math.Ldexp(float64(5+i), s.sh))
		}
		m.SetEntry(0, 0, 0)
	})
}

// powers of two by which a quantity is reported: half steps of sh.
var dims2 = map[string]int{
	"LU.U": 2, "Chol.L": 1, "Chol.LT": 1, "RChol.Root": 1, "QR.R": 2, "RRQR.R": 2,
	"SVD.S": 2, "SVD.SV": 2, "SVD.Norm": 2, "SVD.Cov": -4,
	"Eigen.D": 2, "Eigen.Re": 2, "Eigen.Im": 2, "Eigen.At": 2, "Eigen.Sqrt": 1,
	"EigenTri.D": 2, "EigenTri.Re": 2, "EigenTri.Im": 2, "EigenTri.At": 2, "EigenTri.Sqrt": 1,
	"Hess.H": 2, "Schur.T": 2, "Tri.T": 2, "Tri.Main": 2, "Tri.Sec": 2, "Bi.B": 2, "Bi.Main": 2, "Bi.Sec": 2,
}

// thr is given relative to 2^sh (relative thresholds are not scaled).
func (s *dsess) build(kind string, m int, thr []float64, w [][][]int) int {
	id := s.next
	s.next++
	e := &dev{T: "build", D: id, M: m, K: kind, W: w}
	for _, t := range thr {
		e.Thr = append(e.Thr, fx(t))
	}
	A := s.mats[m]
	at := func(i int) float64 { return math.Ldexp(thr[i], s.sh) }
	s.symm[id] = isSymm(A)
	s.line(e, func() {
		var d interface{}
		var err error
		switch kind {
		case "LU":
			if s.sh == 0 && thr[0] == 1e-11 {
				d, err = linear.NewLUDecomposition(A)
			} else {
				d, err = linear.NewLUDecompositionWithThreshold(A, at(0))
			}
		case "Chol":
			if s.sh == 0 && thr[0] == linear.DEFAULT_RELATIVE_SYMMETRY_THRESHOLD && thr[1] == linear.DEFAULT_ABSOLUTE_POSITIVITY_THRESHOLD {
				d, err = linear.NewDefaultCholeskyDecomposition(A)
			} else {
				d, err = linear.NewCholeskyDecomposition(A, thr[0], at(1))
			}
		case "RChol":
			if thr[0] == 0 {
				d, err = linear.NewRectangularCholeskyDecomposition(A)
			} else {
				d, err = linear.NewRectangularCholeskyDecompositionWithThreshold(A, at(0))
			}
		case "QR":
			if thr[0] == 0 {
				d, err = linear.NewQRDecomposition(A)
			} else {
				d, err = linear.NewQRDecompositionWithThreshold(A, at(0))
			}
		case "RRQR":
			if thr[0] == 0 {
				d, err = linear.NewRRQRDecomposition(A)
			} else {
				d, err = linear.NewRRQRDecompositionWithThreshold(A, at(0))
			}
		case "SVD":
			d, err = linear.NewSingularValueDecomposition(A)
		case "Eigen":
			d, err = linear.NewEigenDecomposition(A)
		case "Hess":
			d, err = linear.NewHessenbergTransformer(A)
		case "Schur":
			d, err = linear.NewSchurTransformer(A)
		case "Tri":
			d, err = linear.NewTriDiagonalTransformer(A)
		case "Bi":
			d, err = linear.NewBiDiagonalTransformer(A)
		default:
			panic(abort{})
		}
		if err != nil {
			e.Err = statusOf(err)
			e.Det = detailsOf(err)
		} else {
			s.decs[id], s.kinds[id] = d, kind
		}
		e.A = s.ints(A, s.sh)
	})
	if e.Err != 0 {
		return 0
	}
	return id
}

func scaled(v []int, sh int) []float64 {
	r := make([]float64, len(v))
	for i := range v {
		r[i] = math.Ldexp(float64(v[i]), sh)
	}
	return r
}

func (s *dsess) buildTri(main, sec []int) int {
	id := s.next
	s.next++
	e := &dev{T: "build", D: id, K: "EigenTri", I: main, N: sec}
	s.symm[id] = true
	s.line(e, func() {
		d, err := linear.NewEigenDecompositionFromTridiagonal(scaled(main, s.sh), scaled(sec, s.sh))
		if err != nil {
			e.Err = statusOf(err)
			e.Det = detailsOf(err)
		} else {
			s.decs[id], s.kinds[id] = d, "EigenTri"
		}
	})
	if e.Err != 0 {
		return 0
	}
	return id
}

func fxMat(m linear.RealMatrix, scale int) fxm {
	if m == nil {
		return fxm{}
	}
	r := make(fxm, m.RowDimension())
	for i := range r {
		r[i] = make([][2]int, m.ColumnDimension())
		for j := range r[i] {
			r[i][j] = fx(math.Ldexp(m.At(i, j), -scale))
		}
	}
	return r
}

func fxRow(v []float64, scale int) [][2]int {
	r := make([][2]int, len(v))
	for i := range v {
		r[i] = fx(math.Ldexp(v[i], -scale))
	}
	return r
}

// Scaling of the columns of eigenvectors: the largest entry of a column (of
// the two columns of a conjugate pair) is brought into [1/2, 1).
func columnScale(ed *linear.EigenDecomposition, n int) []int {
	r := make([]int, n)
	im := ed.ImagEigenvalues()
	big := func(j int) int {
		v, m := ed.EigenvectorAt(j), 0.0
		for i := 0; i < n; i++ {
			m = math.Max(m, math.Abs(v.At(i)))
		}
		_, e := math.Frexp(m)
		return e
	}
	for j := 0; j < n; j++ {
		r[j] = big(j)
		if im[j] > 0 && j+1 < n {
			e := big(j + 1)
			if e > r[j] {
				r[j] = e
			}
			r[j+1] = r[j]
			j++
		}
	}
	return r
}

func isSymm(m linear.RealMatrix) bool {
	n := m.RowDimension()
	if n != m.ColumnDimension() {
		return false
	}
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			if m.At(i, j) != m.At(j, i) {
				return false
			}
		}
	}
	return true
}

// det normalises a determinant.
func det10(f float64) ([2]int, int) {
	if f == 0 || math.IsNaN(f) || math.IsInf(f, 0) {
		return fx(f), 0
	}
	e := 0
	for math.Abs(f) >= 1024 {
		f /= 1024
		e += 10
	}
	for math.Abs(f) < 1 {
		f *= 1024
		e -= 10
	}
	return fx(f), e
}

// get asks decomposition d for quantity q.
func (s *dsess) get(d int, q string, arg float64) *dev {
	s.again(len(s.held) - 5)
	k := s.kinds[d]
	e := &dev{T: "get", D: d, K: k, Q: q}
	sc := dims2[k+"."+q] * s.sh / 2
	var mine *answer
	M := func(m linear.RealMatrix) {
		e.V = fxMat(m, sc)
		if (q == "Cov" || q == "Sqrt") && len(e.V) > 0 {
			mine = &answer{read: func() (fxm, []int) { return fxMat(m, sc), e.N },
				write: func() { m.SetEntry(0, len(e.V[0])-1, 77) }}
		}
	}
	row := func(v []float64) {
		e.V = fxm{fxRow(v, sc)}
		if (q == "SV" || q == "Re" || q == "Im") && len(v) > 0 {
			mine = &answer{read: func() (fxm, []int) { return fxm{fxRow(v, sc)}, e.N },
				write: func() { v[0], v[len(v)-1] = 7, -7 }}
		}
	}
	one := func(f float64) { e.V = fxm{{fx(math.Ldexp(f, -sc))}} }
	num := func(n int) { e.N = []int{n} }
	det := func(f float64, n int) {
		x, ex := det10(math.Ldexp(f, -n*s.sh))
		e.V, e.E = fxm{{x}}, ex
	}
	ns := func(sv linear.DecompositionSolver) { e.N = b2i(sv.IsNonSingular()) }
	if q == "Cov" || q == "Rank" {
		e.Cut = fx(arg)
	}
	cutAt := math.Ldexp(arg, s.sh)
	s.line(e, func() {
		switch x := s.decs[d].(type) {
		case *linear.LUDecomposition:
			switch q {
			case "L":
				M(x.L())
			case "U":
				M(x.U())
			case "P":
				M(x.P())
			case "Pivot":
				p := x.Pivot()
				e.N = append([]int{}, p...)
				mine = &answer{read: func() (fxm, []int) { return fxm{}, append([]int{}, p...) },
					write: func() { p[0], p[len(p)-1] = 7, 3 }}
			case "Det":
				det(x.Determinant(), len(x.Pivot()))
			case "NS":
				ns(x.Solver())
			}
		case *linear.CholeskyDecomposition:
			switch q {
			case "L":
				M(x.L())
			case "LT":
				M(x.LT())
			case "Det":
				det(x.Determinant(), x.L().RowDimension())
			case "NS":
				ns(x.Solver())
			}
		case *linear.RectangularCholeskyDecomposition:
			switch q {
			case "Root":
				M(x.RootMatrix())
			case "Rank":
				num(x.Rank())
			}
		case *linear.RRQRDecomposition:
			switch q {
			case "Q":
				M(x.Q())
			case "QT":
				M(x.QT())
			case "R":
				M(x.R())
			case "H":
				M(x.H())
			case "P":
				M(x.P())
			case "Rank":
				num(x.Rank(cutAt))
			case "NS":
				ns(x.Solver())
			}
		case *linear.QRDecomposition:
			switch q {
			case "Q":
				M(x.Q())
			case "QT":
				M(x.QT())
			case "R":
				M(x.R())
			case "H":
				M(x.H())
			case "NS":
				ns(x.Solver())
			}
		case *linear.SingularValueDecomposition:
			switch q {
			case "U":
				M(x.U())
			case "UT":
				M(x.UT())
			case "V":
				M(x.V())
			case "VT":
				M(x.VT())
			case "S":
				M(x.S())
			case "SV":
				row(x.SingularValues())
			case "Norm":
				one(x.Norm())
			case "Cond":
				one(x.ConditionNumber())
			case "ICond":
				one(x.InverseConditionNumber())
			case "Rank":
				num(x.Rank())
			case "NS":
				ns(x.Solver())
			case "Cov":
				if arg < 0 { // at a singular value
					sv := x.SingularValues()
					i := (int(-arg) - 1) % len(sv)
					e.Cut, e.N = fx(math.Ldexp(sv[i], -s.sh)), []int{i + 1}
					cutAt = sv[i]
				}
				M(x.Covariance(cutAt))
			}
		case *linear.EigenDecomposition:
			n := len(x.RealEigenvalues())
			switch q {
			case "V", "VT", "Vec":
				c, ok := s.cols[d]
				if !ok {
					if s.symm[d] {
						c = make([]int, n)
					} else {
						c = columnScale(x, n)
					}
					s.cols[d] = c
				}
				r := make(fxm, n)
				for i := range r {
					r[i] = make([][2]int, n)
				}
				var m linear.RealMatrix
				if q == "V" {
					m = x.V()
				} else if q == "VT" {
					m = x.VT()
				}
				if m != nil && (m.RowDimension() != n || m.ColumnDimension() != n) {
					e.V = fxm{}
					return
				}
				if q == "V" {
					e.N = make([]int, n)
					for i, y := range x.ImagEigenvalues() {
						e.N[i] = b2i(y > 0)[0] - b2i(y < 0)[0]
					}
				}
				var vecs []linear.RealVector
				for i := 0; i < n; i++ {
					var ev linear.RealVector
					if q == "Vec" {
						ev = x.EigenvectorAt(i)
						vecs = append(vecs, ev)
					}
					for j := 0; j < n; j++ {
						switch q {
						case "V":
							r[i][j] = fx(math.Ldexp(m.At(i, j), -c[j]))
						case "VT":
							r[i][j] = fx(math.Ldexp(m.At(i, j), -c[i]))
						default:
							r[i][j] = fx(math.Ldexp(ev.At(j), -c[i]))
						}
					}
				}
				e.V = r
				if q == "Vec" {
					mine = &answer{read: func() (fxm, []int) {
						r := make(fxm, n)
						for i := range r {
							r[i] = make([][2]int, n)
							for j := range r[i] {
								r[i][j] = fx(math.Ldexp(vecs[i].At(j), -c[i]))
							}
						}
						return r, e.N
					}, write: func() { vecs[n-1].SetEntry(0, 77) }}
				}
			case "D":
				M(x.D())
			case "Re":
				row(x.RealEigenvalues())
			case "Im":
				row(x.ImagEigenvalues())
			case "At":
				a, b := make([]float64, n), make([]float64, n)
				for i := range a {
					a[i], b[i] = x.RealEigenvalueAt(i), x.ImagEigenvalue(i)
				}
				e.V = fxm{fxRow(a, sc), fxRow(b, sc)}
			case "HasC":
				e.N = b2i(x.HasComplexEigenvalues())
			case "Det":
				det(x.Determinant(), n)
			case "Sqrt":
				M(x.SquareRoot())
			case "NS":
				ns(x.Solver())
			}
		case *linear.HessenbergTransformer:
			switch q {
			case "P":
				M(x.P())
			case "PT":
				M(x.PT())
			case "H":
				M(x.H())
			}
		case *linear.SchurTransformer:
			switch q {
			case "P":
				M(x.P())
			case "PT":
				M(x.PT())
			case "T":
				M(x.T())
			}
		case *linear.TriDiagonalTransformer:
			switch q {
			case "Q":
				M(x.Q())
			case "QT":
				M(x.QT())
			case "T":
				M(x.T())
			case "Main":
				row(x.MainDiagonalRef())
			case "Sec":
				row(x.SecondaryDiagonalRef())
			}
		case *linear.BiDiagonalTransformer:
			switch q {
			case "U":
				M(x.U())
			case "B":
				M(x.B())
			case "V":
				M(x.V())
			case "Main":
				row(x.MainDiagonalRef())
			case "Sec":
				row(x.SecondaryDiagonalRef())
			case "Upper":
				e.N = b2i(x.IsUpperBiDiagonal())
			}
		}
		if mine != nil {
			s.keep(e, *mine, true)
		}
	})
	return e
}

// solver returns a solver of d: the same one as before, now and again.
func (s *dsess) solver(d int) linear.DecompositionSolver {
	if sv, ok := s.slvrs[d]; ok && s.turn%4 != 3 {
		return sv
	}
	s.slvrs[d] = s.decs[d].(interface {
		Solver() linear.DecompositionSolver
	}).Solver()
	return s.slvrs[d]
}

// solve has d solve for the right-hand side b (given as a matrix, or vector,
// of kind rk), or invert.  The right-hand side is given times a power of two,
// which the solution is taken back by.
func (s *dsess) solve(d int, q, rk string, b [][]int) *dev {
	s.again(len(s.held) - 5)
	e := &dev{T: "solve", D: d, K: s.kinds[d], Q: q, A: b, B2: b}
	rs := 0
	if s.sh >= -200 && s.sh <= 200 {
		s.solves++
		rs = []int{0, 0, -60, 0, 200, 0, -250, 60}[s.solves%8]
	}
	up := s.sh - rs
	s.line(e, func() {
		var x linear.RealMatrix
		switch q {
		case "inv":
			up = s.sh
			x = s.solver(d).Inverse()
		case "vec":
			col := make([]float64, len(b))
			for i := range b {
				col[i] = math.Ldexp(float64(b[i][0]), rs)
			}
			var v linear.RealVector
			v, err := linear.NewArrayRealVectorFromSlice(col)
			if err != nil {
				panic(abort{})
			}
			if rk == "fvec" {
				v = foreignVec{v}
			}
			e.B2 = nil
			defer func() {
				e.B2 = make([][]int, v.Dimension())
				for i := range e.B2 {
					e.B2[i] = []int{int(math.Ldexp(v.At(i), -rs))}
				}
			}()
			y := s.solver(d).SolveVector(v)
			e.V = make(fxm, y.Dimension())
			for i := range e.V {
				e.V[i] = [][2]int{fx(math.Ldexp(y.At(i), up))}
			}
			if n := y.Dimension(); n > 0 {
				s.keep(e, answer{read: func() (fxm, []int) {
					r := make(fxm, n)
					for i := range r {
						r[i] = [][2]int{fx(math.Ldexp(y.At(i), up))}
					}
					return r, e.N
				}, write: func() { y.SetEntry(0, y.At(0)+1); y.SetEntry(n-1, 7) }}, true)
			}
			return
		default:
			m := makeMatrix(rk, floats(b, rs))
			defer func() { e.B2 = s.ints(m, rs) }()
			x = s.solver(d).SolveMatrix(m)
		}
		e.V = fxMat(x, -up)
		if x != nil && len(e.V) > 0 {
			// (the inverse that a singular value decomposition knows is its own)
			s.keep(e, answer{read: func() (fxm, []int) { return fxMat(x, -up), e.N },
				write: func() { x.SetEntry(0, 0, x.At(0, 0)+1); x.SetEntry(len(e.V)-1, len(e.V[0])-1, 7) }}, q != "inv" || s.kinds[d] != "SVD")
		}
	})
	return e
}
