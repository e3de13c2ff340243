package main

import (
	"math"

	"github.com/jtejido/linear"
)

// Decompositions of matrices of any numbers whatever (module Wild).

type bits [2]int

func bitsOf(f float64) bits {
	switch {
	case math.IsNaN(f):
		return bits{2146959360, 0}
	case f == 0:
		return bits{0, 0}
	}
	u := math.Float64bits(f)
	return bits{int(int32(u >> 32)), int(int32(u))}
}

func bitsMat(m linear.RealMatrix) [][]bits {
	if m == nil {
		return [][]bits{}
	}
	r := make([][]bits, m.RowDimension())
	for i := range r {
		r[i] = make([]bits, m.ColumnDimension())
		for j := range r[i] {
			r[i][j] = bitsOf(m.At(i, j))
		}
	}
	return r
}

func bitsRow(v []float64) []bits {
	r := make([]bits, len(v))
	for i := range v {
		r[i] = bitsOf(v[i])
	}
	return r
}

type solving interface {
	Solver() linear.DecompositionSolver
}

// One line of a trace of module WildTrace.
type wev struct {
	T   string   `json:"t"`
	M   int      `json:"m"`
	D   int      `json:"d"`
	K   string   `json:"k"`
	Q   string   `json:"q"`
	A   [][]bits `json:"a"`
	A2  [][]bits `json:"a2"`
	B   [][]bits `json:"b"`
	N   []int    `json:"n"`
	Err int      `json:"err"`
}

type wsess struct {
	out   *sink
	mats  map[int]linear.RealMatrix
	decs  map[int]interface{}
	kinds map[int]string
	next  int
	stats map[string]int
}

func (s *wsess) reset() {
	s.mats, s.decs, s.kinds, s.next = map[int]linear.RealMatrix{}, map[int]interface{}{}, map[int]string{}, 1
	s.line(&wev{T: "reset"}, nil)
}

func (s *wsess) line(e *wev, f func()) {
	if e.A == nil {
		e.A = [][]bits{}
	}
	e.A2, e.B = [][]bits{}, [][]bits{}
	if e.N == nil {
		e.N = []int{}
	}
	if e.K != "" {
		s.stats[e.T+"."+e.K+"."+e.Q]++
	}
	hung := *e
	hung.Err = errHang
	s.out.begin(&hung)
	if f != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					e.Err, e.B, e.N = statusOf(r), [][]bits{}, []int{}
				}
			}()
			f()
		}()
	}
	s.out.end(e)
}

func (s *wsess) mat(kind string, d [][]float64) int {
	id := s.next
	s.next++
	s.mats[id] = makeMatrix(kind, d)
	s.line(&wev{T: "mat", M: id, A: bitsMat(s.mats[id])}, nil)
	return id
}

func (s *wsess) write(m, i, j int, f float64) {
	e := &wev{T: "write", M: m, N: []int{i + 1, j + 1}}
	s.line(e, func() {
		s.mats[m].SetEntry(i, j, f)
		e.B = [][]bits{{bitsOf(f)}}
	})
}

// build decomposes matrix m; thr (if any) are thresholds.
func (s *wsess) build(kind string, m int, thr []float64) int {
	id := s.next
	s.next++
	A := s.mats[m]
	e := &wev{T: "build", M: m, D: id, K: kind}
	for _, t := range thr {
		if math.IsNaN(t) {
			e.Q = "nan"
		}
	}
	s.line(e, func() {
		defer func() {
			e.A = bitsMat(A)
			if thr != nil {
				e.B = [][]bits{bitsRow(thr)}
			}
		}()
		var d interface{}
		var err error
		switch kind {
		case "LU":
			if thr == nil {
				d, err = linear.NewLUDecomposition(A)
			} else {
				d, err = linear.NewLUDecompositionWithThreshold(A, thr[0])
			}
		case "Chol":
			if thr == nil {
				d, err = linear.NewDefaultCholeskyDecomposition(A)
			} else {
				d, err = linear.NewCholeskyDecomposition(A, math.Abs(thr[0]), math.Abs(thr[1]))
			}
		case "RChol":
			if thr == nil {
				d, err = linear.NewRectangularCholeskyDecomposition(A)
			} else {
				d, err = linear.NewRectangularCholeskyDecompositionWithThreshold(A, math.Abs(thr[0]))
			}
		case "QR":
			if thr == nil {
				d, err = linear.NewQRDecomposition(A)
			} else {
				d, err = linear.NewQRDecompositionWithThreshold(A, thr[0])
			}
		case "RRQR":
			if thr == nil {
				d, err = linear.NewRRQRDecomposition(A)
			} else {
				d, err = linear.NewRRQRDecompositionWithThreshold(A, thr[0])
			}
		case "SVD":
			d, err = linear.NewSingularValueDecomposition(A)
		case "Eigen":
			d, err = linear.NewEigenDecomposition(A)
		case "Hess":
			d, err = linear.NewHessenbergTransformer(A)
		case "Schur":
			d, err = linear.NewSchurTransformer(A)
		case "Tri":
			d, err = linear.NewTriDiagonalTransformer(A)
		case "Bi":
			d, err = linear.NewBiDiagonalTransformer(A)
		}
		if err != nil {
			e.Err = statusOf(err)
			return
		}
		s.decs[id], s.kinds[id] = d, kind
	})
	if e.Err != 0 {
		return 0
	}
	return id
}

func (s *wsess) buildTri(main, sec []float64) int {
	id := s.next
	s.next++
	e := &wev{T: "build", D: id, K: "EigenTri"}
	s.line(e, func() {
		defer func() { e.A = [][]bits{bitsRow(main), bitsRow(sec)} }()
		d, err := linear.NewEigenDecompositionFromTridiagonal(main, sec)
		if err != nil {
			e.Err = statusOf(err)
			return
		}
		s.decs[id], s.kinds[id] = d, "EigenTri"
	})
	if e.Err != 0 {
		return 0
	}
	return id
}

var wildQueries = map[string][]string{
	"LU":       {"NS", "Pivot", "P", "L", "U", "Det"},
	"Chol":     {"L", "LT", "Det", "NS"},
	"RChol":    {"Root", "Rank"},
	"QR":       {"Q", "QT", "R", "H", "NS"},
	"RRQR":     {"Q", "QT", "R", "H", "P", "Rank", "NS"},
	"SVD":      {"U", "UT", "S", "SV", "V", "VT", "Norm", "Cond", "InvCond", "Rank", "Cov", "NS"},
	"Eigen":    {"Re", "Im", "HasC", "D", "At", "V", "VT", "Vecs", "Det", "Sqrt", "NS"},
	"EigenTri": {"Re", "Im", "HasC", "D", "At", "V", "VT", "Vecs", "Det", "Sqrt", "NS"},
	"Hess":     {"P", "PT", "H"},
	"Schur":    {"P", "PT", "T"},
	"Tri":      {"Q", "QT", "T", "Main", "Sec"},
	"Bi":       {"U", "B", "V", "Main", "Sec", "Upper"},
}

func (s *wsess) get(d int, q string, arg float64) {
	e := &wev{T: "get", D: d, K: s.kinds[d], Q: q}
	if q == "Rank" || q == "Cov" {
		e.A = [][]bits{{bitsOf(arg)}}
	}
	M := func(m linear.RealMatrix) { e.B = bitsMat(m) }
	row := func(v []float64) { e.B = [][]bits{bitsRow(v)} }
	one := func(f float64) { e.B = [][]bits{{bitsOf(f)}} }
	s.line(e, func() {
		switch q {
		case "NS":
			e.N = b2i(s.decs[d].(solving).Solver().IsNonSingular())
			return
		case "Det":
			one(s.decs[d].(interface{ Determinant() float64 }).Determinant())
			return
		}
		// the getters of one name and signature, whatever the decomposition
		switch q {
		case "L":
			M(s.decs[d].(interface{ L() linear.RealMatrix }).L())
		case "LT":
			M(s.decs[d].(interface{ LT() linear.RealMatrix }).LT())
		case "U":
			M(s.decs[d].(interface{ U() linear.RealMatrix }).U())
		case "UT":
			M(s.decs[d].(interface{ UT() linear.RealMatrix }).UT())
		case "P":
			M(s.decs[d].(interface{ P() linear.RealMatrix }).P())
		case "PT":
			M(s.decs[d].(interface{ PT() linear.RealMatrix }).PT())
		case "Q":
			M(s.decs[d].(interface{ Q() linear.RealMatrix }).Q())
		case "QT":
			M(s.decs[d].(interface{ QT() linear.RealMatrix }).QT())
		case "R":
			M(s.decs[d].(interface{ R() linear.RealMatrix }).R())
		case "H":
			M(s.decs[d].(interface{ H() linear.RealMatrix }).H())
		case "S":
			M(s.decs[d].(interface{ S() linear.RealMatrix }).S())
		case "T":
			M(s.decs[d].(interface{ T() linear.RealMatrix }).T())
		case "B":
			M(s.decs[d].(interface{ B() linear.RealMatrix }).B())
		case "D":
			M(s.decs[d].(interface{ D() linear.RealMatrix }).D())
		case "V":
			M(s.decs[d].(interface{ V() linear.RealMatrix }).V())
		case "VT":
			M(s.decs[d].(interface{ VT() linear.RealMatrix }).VT())
		case "Pivot":
			e.N = append([]int{}, s.decs[d].(*linear.LUDecomposition).Pivot()...)
		case "Root":
			M(s.decs[d].(*linear.RectangularCholeskyDecomposition).RootMatrix())
		case "Rank":
			switch x := s.decs[d].(type) {
			case *linear.RectangularCholeskyDecomposition:
				e.N = []int{x.Rank()}
			case *linear.RRQRDecomposition:
				e.N = []int{x.Rank(arg)}
			case *linear.SingularValueDecomposition:
				e.N = []int{x.Rank()}
			}
		default:
			switch x := s.decs[d].(type) {
			case *linear.TriDiagonalTransformer:
				if q == "Main" {
					row(x.MainDiagonalRef())
				} else {
					row(x.SecondaryDiagonalRef())
				}
			case *linear.BiDiagonalTransformer:
				switch q {
				case "Main":
					row(x.MainDiagonalRef())
				case "Sec":
					row(x.SecondaryDiagonalRef())
				case "Upper":
					e.N = b2i(x.IsUpperBiDiagonal())
				}
			case *linear.SingularValueDecomposition:
				switch q {
				case "SV":
					row(x.SingularValues())
				case "Norm":
					one(x.Norm())
				case "Cond":
					one(x.ConditionNumber())
				case "InvCond":
					one(x.InverseConditionNumber())
				case "Cov":
					M(x.Covariance(arg))
				}
			case *linear.EigenDecomposition:
				switch q {
				case "Re":
					row(x.RealEigenvalues())
				case "Im":
					row(x.ImagEigenvalues())
				case "HasC":
					e.N = b2i(x.HasComplexEigenvalues())
				case "Sqrt":
					M(x.SquareRoot())
				case "At":
					n := len(x.RealEigenvalues())
					re, im := make([]float64, n), make([]float64, n)
					for i := range re {
						re[i], im[i] = x.RealEigenvalueAt(i), x.ImagEigenvalue(i)
					}
					e.B = [][]bits{bitsRow(re), bitsRow(im)}
				case "Vecs":
					for i := range x.RealEigenvalues() {
						e.B = append(e.B, bitsRow(x.EigenvectorAt(i).ToArray()))
					}
				}
			}
		}
	})
}

func (s *wsess) solve(d int, q, kind string, b [][]float64) {
	e := &wev{T: "solve", D: d, K: s.kinds[d], Q: q, M: map[string]int{"arr": 1, "blk": 2, "fmat": 3}[kind]}
	for _, r := range b {
		e.A = append(e.A, bitsRow(r))
	}
	s.line(e, func() {
		e.A2 = e.A
		sv := func() linear.DecompositionSolver {
			return s.decs[d].(solving).Solver()
		}
		switch q {
		case "inv":
			e.B = bitsMat(sv().Inverse())
		case "mat":
			m := makeMatrix(kind, b)
			defer func() { e.A2 = bitsMat(m) }()
			e.B = bitsMat(sv().SolveMatrix(m))
		case "vec":
			c := make([]float64, len(b))
			for i := range b {
				c[i] = b[i][0]
			}
			var v linear.RealVector
			v, err := linear.NewArrayRealVectorFromSlice(c)
			if err != nil {
				panic(abort{})
			}
			if kind == "fmat" {
				v = foreignVec{v}
			}
			defer func() {
				e.A2 = [][]bits{}
				for _, x := range v.ToArray() {
					e.A2 = append(e.A2, []bits{bitsOf(x)})
				}
			}()
			for _, x := range sv().SolveVector(v).ToArray() {
				e.B = append(e.B, []bits{bitsOf(x)})
			}
		}
	})
}
