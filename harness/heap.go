package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sync"
	"time"

	"github.com/jtejido/linear"
)

// Implementations of the library's interfaces that are not its own: they
// take the paths the library keeps for those.
type foreignMat struct{ linear.RealMatrix }
type foreignVec struct{ linear.RealVector }

// A live object; exactly one of m, v, r1, r2 is in use, by kind.
type obj struct {
	k    string
	m    linear.RealMatrix
	v    linear.RealVector
	r1   []float64
	r2   [][]float64
	prev [][]int
}

// One line of a trace (module HeapTrace).
type ev struct {
	T     string          `json:"t"`
	Op    string          `json:"op"`
	X     int             `json:"x"`
	Y     int             `json:"y"`
	Z     int             `json:"z"`
	I     []int           `json:"i"`
	V     interface{}     `json:"v"`
	RS    []int           `json:"rs"`
	CS    []int           `json:"cs"`
	N     int             `json:"n"`
	K     string          `json:"k"`
	Err   int             `json:"err"`
	Ret   []int           `json:"ret"`
	Chg   [][]interface{} `json:"chg"`
	Bnd   int             `json:"bnd"`
	Upd   int             `json:"upd"`
	Fin   int             `json:"fin"`
	Ord   string          `json:"ord"`
	Start []int           `json:"start"`
	Vis   [][]int         `json:"vis"`
	FX    [][2]int        `json:"fx"`
	Gone  []int           `json:"gone"`
	Acts  [][]int         `json:"acts"`
	Ends  int             `json:"ends"`
	Det   []details       `json:"det"`
}

const (
	errRuntime = -99 // a failure that is not one of the library's errors
	errHang    = -98 // the call did not come back
	errBroken  = -97 // what a visitor panicked with
)

func statusOf(r interface{}) int {
	if e, ok := r.(linear.LinearMathError); ok {
		return e.Status()
	}
	if _, ok := r.(brokenOff); ok {
		return errBroken
	}
	return errRuntime
}

// Output file shared with the watchdog.
type sink struct {
	mu    sync.Mutex
	w     *bufio.Writer
	f     *os.File
	lines int
	cur   interface{} // call under way, as it is to be reported if it hangs
	since time.Time
	limit time.Duration
}

func newSink(path string) *sink {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	s := &sink{f: f, w: bufio.NewWriterSize(f, 1<<20), limit: 60 * time.Second}
	go func() {
		for {
			time.Sleep(time.Second)
			s.mu.Lock()
			if s.cur != nil && time.Since(s.since) > s.limit {
				s.put(s.cur)
				s.w.Flush()
				s.f.Close()
				fmt.Fprintln(os.Stderr, "call did not return:", path)
				os.Exit(0)
			}
			s.mu.Unlock()
		}
	}()
	return s
}

func (s *sink) put(x interface{}) {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	s.w.Write(b)
	s.w.WriteByte('\n')
	s.lines++
}

// begin announces a call and how to report it if it does not return.
func (s *sink) begin(x interface{}) {
	s.mu.Lock()
	s.cur, s.since = x, time.Now()
	s.mu.Unlock()
}

func (s *sink) end(x interface{}) {
	s.mu.Lock()
	s.cur = nil
	s.put(x)
	s.mu.Unlock()
}

func (s *sink) close() {
	s.mu.Lock()
	s.cur = nil
	s.w.Flush()
	s.f.Close()
	s.mu.Unlock()
}

// A session executes calls on the library and writes the trace.
type heap struct {
	out   *sink
	objs  map[int]*obj
	order []int
	gone  []int // dropped since the last call
	bare  int   // taken without unit
	next  int
	its   map[int]*iter
	stats map[string]int
}

type iter struct {
	it   linear.EntryIterator
	n    int
	kept []linear.Entry // every entry handed out
	vals []int          // with the value it had then
}

func newHeap(out *sink) *heap {
	return &heap{out: out, stats: map[string]int{}}
}

func (h *heap) reset() {
	h.objs, h.order, h.next, h.its, h.gone = map[int]*obj{}, nil, 1, map[int]*iter{}, nil
	e := &ev{T: "reset"}
	if unit != 1 {
		e.Op = fmt.Sprintf("unit %x", unit)
	}
	h.fill(e)
	h.out.end(e)
}

func (h *heap) fill(e *ev) {
	if e.I == nil {
		e.I = []int{}
	}
	if e.V == nil {
		e.V = []int{0}
	}
	if e.RS == nil {
		e.RS = []int{}
	}
	if e.CS == nil {
		e.CS = []int{}
	}
	if e.Ret == nil {
		e.Ret = []int{}
	}
	if e.Chg == nil {
		e.Chg = [][]interface{}{}
	}
	if e.Start == nil {
		e.Start = []int{}
	}
	if e.Vis == nil {
		e.Vis = [][]int{}
	}
	if e.Gone == nil {
		e.Gone = []int{}
	}
	if e.Acts == nil {
		e.Acts = [][]int{}
	}
	if e.Det == nil {
		e.Det = []details{}
	}
	if e.FX == nil {
		e.FX = [][2]int{}
	}
}

// Contents of an object as the library shows them (rows for matrices, one
// row for arrays and vectors).
func (o *obj) look() (c [][]int) {
	defer func() {
		if r := recover(); r != nil {
			c = [][]int{{cOff}, {cOff}}
		}
	}()
	switch {
	case o.r2 != nil:
		return unss(o.r2)
	case o.m != nil:
		m, n := o.m.RowDimension(), o.m.ColumnDimension()
		c = make([][]int, m)
		for i := range c {
			c[i] = make([]int, n)
			for j := range c[i] {
				c[i][j] = un(o.m.At(i, j))
			}
		}
		return c
	case o.v != nil:
		n := o.v.Dimension()
		r := make([]int, n)
		for i := range r {
			r[i] = un(o.v.At(i))
		}
		return [][]int{r}
	}
	return [][]int{uns(o.r1)}
}

func (o *obj) flat() bool { return o.m == nil && o.r2 == nil }

func same(a, b [][]int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

func (h *heap) changes() [][]interface{} {
	chg := [][]interface{}{}
	for _, id := range h.order {
		o := h.objs[id]
		c := o.look()
		if o.prev == nil || !same(c, o.prev) {
			o.prev = c
			if o.flat() {
				chg = append(chg, []interface{}{id, c[0]})
			} else {
				chg = append(chg, []interface{}{id, c})
			}
		}
	}
	return chg
}

func (h *heap) add(o *obj) int {
	id := h.next
	h.next++
	h.objs[id] = o
	h.order = append(h.order, id)
	return id
}

// drop forgets objects; the next line of the trace says so.
func (h *heap) drop(ids ...int) {
	h.gone = append(h.gone, ids...)
	for _, id := range ids {
		for i, x := range h.order {
			if x == id {
				h.order = append(h.order[:i:i], h.order[i+1:]...)
				break
			}
		}
	}
}

func kindOf(m linear.RealMatrix) string {
	switch m.(type) {
	case *linear.Array2DRowRealMatrix:
		return "arr"
	case *linear.BlockRealMatrix:
		return "blk"
	case *linear.DiagonalMatrix:
		return "diag"
	}
	return "fmat"
}

func (h *heap) mat(id int) linear.RealMatrix {
	if o := h.objs[id]; o != nil {
		if id == h.bare && o.m != nil {
			return scaledMat(o.m, -unitExp)
		}
		return o.m
	}
	return nil
}

func (h *heap) vec(id int) linear.RealVector {
	if o := h.objs[id]; o != nil {
		if id == h.bare && o.v != nil {
			return scaledVec(o.v, -unitExp)
		}
		return o.v
	}
	return nil
}

func (h *heap) r1(id int) []float64 {
	if o := h.objs[id]; o != nil {
		if id == h.bare && o.r1 != nil {
			r := make([]float64, len(o.r1))
			for i, f := range o.r1 {
				r[i] = math.Ldexp(f, -unitExp)
			}
			return r
		}
		return o.r1
	}
	return nil
}

func (h *heap) r2(id int) [][]float64 {
	if o := h.objs[id]; o != nil {
		return o.r2
	}
	return nil
}

// do performs the call e describes, completes e with what was observed, and
// writes it.  It returns the id of the new object, or 0.
func (h *heap) do(e *ev) int {
	if unit != 1 && e.scaled() {
		return 0
	}
	h.stats[e.T+"."+e.Op]++
	e.Gone, h.gone = h.gone, nil
	h.fill(e)
	hung := *e
	hung.Err = errHang
	h.out.begin(&hung)
	var o *obj
	func() {
		defer func() {
			if r := recover(); r != nil {
				o = nil
				e.Ret = []int{}
				e.Err = statusOf(r)
				e.Det = detailsOf(r)
			}
		}()
		if unit != 1 {
			h.bare = e.factor()
		}
		o = h.exec(e)
	}()
	h.bare = 0
	if o != nil && e.Err == 0 {
		e.N = h.add(o)
		e.K = o.k
	}
	e.Chg = h.changes()
	h.out.end(e)
	if e.Err != 0 {
		h.stats["refused"]++
	}
	return e.N
}

// scaled tells whether the result of a call depends on the unit.
func (e *ev) scaled() bool {
	var odd func(v interface{}) bool
	odd = func(v interface{}) bool {
		switch v := v.(type) {
		case []int:
			for _, k := range v {
				if k == cTPos || k == cTNeg || k == cOneUp {
					return true
				}
			}
		case [][]int:
			for _, r := range v {
				if odd(r) {
					return true
				}
			}
		}
		return false
	}
	if odd(e.V) {
		return true
	}
	switch e.T {
	case "Q":
		switch e.Op {
		case "Dot":
			return e.Z != 0 || e.X == e.Y
		case "L1", "LInfV", "L1Dist", "LInfDist", "MinI", "MaxI", "MinV", "MaxV":
			return e.Z != 0
		}
		return true
	case "N":
		return e.Op == "Id" || e.Op == "Outer" && e.Y == e.Z
	case "M", "V":
		switch e.Op {
		case "Pow", "Inv":
			return true
		}
	}
	return false
}

// factor gives the operand that a product or a quotient takes without unit.
func (e *ev) factor() int {
	switch e.T {
	case "Q":
		if e.Op == "Dot" {
			return e.Y
		}
	case "N":
		if e.Op == "Outer" {
			return e.Z
		}
	case "M", "V":
		switch e.Op {
		case "Mul", "PreMul", "Op", "OpVec", "PreOp", "PreOpVec", "EMul", "EDiv":
			return e.Y
		}
	}
	return 0
}

func mo(m linear.RealMatrix) *obj {
	if m == nil {
		panic("nil matrix")
	}
	return &obj{k: kindOf(m), m: m}
}
func vo(v linear.RealVector) *obj {
	if v == nil {
		panic("nil vector")
	}
	return &obj{k: "vec", v: v}
}
func ao(a []float64) *obj {
	if a == nil {
		a = []float64{}
	}
	return &obj{k: "raw1", r1: a}
}
func ro(a [][]float64) *obj {
	if a == nil {
		panic("nil data")
	}
	return &obj{k: "raw2", r2: a}
}

func b2i(b bool) []int {
	if b {
		return []int{1}
	}
	return []int{0}
}

type dataRef2 interface{ DataRef() [][]float64 }
type dataRef1 interface{ DataRef() []float64 }

func (e *ev) vs() []int { return e.V.([]int) }

func (h *heap) exec(e *ev) *obj {
	switch e.T {
	case "M":
		return h.execM(e)
	case "V":
		return h.execV(e)
	case "N":
		return h.execN(e)
	case "Q":
		h.execQ(e)
		return nil
	case "W":
		h.execW(e)
		return nil
	case "VW":
		h.execVW(e)
		return nil
	case "R":
		o := h.objs[e.X]
		if o.r2 != nil {
			o.r2[e.I[0]][e.I[1]] = fl(e.vs()[0])
		} else {
			o.r1[e.I[0]] = fl(e.vs()[0])
		}
		return nil
	}
	panic("unknown call " + e.T)
}

func (h *heap) execM(e *ev) *obj {
	m, a := h.objs[e.X].m, e.I
	var v float64
	if vs, ok := e.V.([]int); ok && len(vs) > 0 {
		v = fl(vs[0])
	}
	switch e.Op {
	case "At":
		e.Ret = []int{un(m.At(a[0], a[1]))}
	case "Set":
		m.SetEntry(a[0], a[1], v)
	case "AddTo":
		m.AddToEntry(a[0], a[1], v)
	case "MulTo":
		m.MultiplyEntry(a[0], a[1], fc(e.vs()[0]))
	case "Dims":
		e.Ret = []int{m.RowDimension(), m.ColumnDimension()}
	case "IsSquare":
		e.Ret = b2i(linear.IsSquare(m))
	case "Row":
		return ao(m.RowAt(a[0]))
	case "Col":
		return ao(m.ColumnAt(a[0]))
	case "RowVec":
		return vo(m.RowVectorAt(a[0]))
	case "ColVec":
		return vo(m.ColumnVectorAt(a[0]))
	case "RowMat":
		return mo(m.RowMatrixAt(a[0]))
	case "ColMat":
		return mo(m.ColumnMatrixAt(a[0]))
	case "SetRow":
		m.SetRow(a[0], h.r1(e.Y))
	case "SetCol":
		m.SetColumn(a[0], h.r1(e.Y))
	case "SetRowVec":
		m.SetRowVector(a[0], h.vec(e.Y))
	case "SetColVec":
		m.SetColumnVector(a[0], h.vec(e.Y))
	case "SetRowMat":
		m.SetRowMatrix(a[0], h.mat(e.Y))
	case "SetColMat":
		m.SetColumnMatrix(a[0], h.mat(e.Y))
	case "Sub":
		return mo(m.SubMatrix(a[0], a[1], a[2], a[3]))
	case "SetSub":
		m.SetSubMatrix(h.r2(e.Y), a[0], a[1])
	case "Data":
		return ro(m.Data())
	case "Ref":
		if d, ok := m.(dataRef2); ok {
			return ro(d.DataRef())
		}
		return ao(m.(dataRef1).DataRef())
	case "Copy":
		return mo(m.Copy())
	case "Add":
		return mo(m.Add(h.mat(e.Y)))
	case "Subt":
		return mo(m.Subtract(h.mat(e.Y)))
	case "Mul":
		return mo(m.Multiply(h.mat(e.Y)))
	case "PreMul":
		return mo(m.PreMultiplyMatrix(h.mat(e.Y)))
	case "SAdd":
		return mo(m.ScalarAdd(v))
	case "SMul":
		return mo(m.ScalarMultiply(fc(e.vs()[0])))
	case "T":
		return mo(m.Transpose())
	case "Trace":
		e.Ret = []int{un(m.Trace())}
	case "Op":
		return ao(m.Operate(h.r1(e.Y)))
	case "OpVec":
		return vo(m.OperateVector(h.vec(e.Y)))
	case "PreOp":
		return ao(m.PreMultiply(h.r1(e.Y)))
	case "PreOpVec":
		return vo(m.PreMultiplyVector(h.vec(e.Y)))
	case "Eq":
		e.Ret = b2i(m.Equals(h.other(e.Y)))
	case "Pow":
		return mo(linear.Power(m, a[0]))
	case "Select":
		return mo(linear.SubMatrix(m, sel(e.RS, 1, a), sel(e.CS, 2, a)))
	case "CopySub":
		linear.CopySubMatrix(m, a[0], a[1], a[2], a[3], h.r2(e.Y))
	case "CopySel":
		linear.CopySubMatrixFromIndices(m, sel(e.RS, 1, a), sel(e.CS, 2, a), h.r2(e.Y))
	case "LInf":
		e.Ret = []int{un(linear.MatLInfNorm(m))}
	case "Inv":
		d := m.(*linear.DiagonalMatrix)
		if len(a) > 0 {
			return mo(d.Inverse())
		}
		return mo(d.InverseWithThreshold(v))
	case "IsSing":
		e.Ret = b2i(m.(*linear.DiagonalMatrix).IsSingular(v))
	default:
		panic("unknown " + e.Op)
	}
	return nil
}

// other gives what an equality test is asked to compare with.
func (h *heap) other(id int) interface{} {
	o := h.objs[id]
	switch {
	case o == nil:
		return nil
	case o.r2 != nil:
		return o.r2
	case o.m != nil:
		return o.m
	case o.v != nil:
		return o.v
	}
	return o.r1
}

func mapFun(f int) func(float64) float64 {
	switch f {
	case 1:
		return func(x float64) float64 { return x + x }
	case 2:
		return func(x float64) float64 { return -x }
	case 3:
		return func(x float64) float64 {
			if x < 0 {
				return -x
			}
			return x
		}
	}
	return func(x float64) float64 { return fl(16) }
}

func (h *heap) execV(e *ev) *obj {
	x, a := h.objs[e.X].v, e.I
	vs, _ := e.V.([]int)
	var z float64
	if len(vs) > 0 {
		z = fl(vs[0])
	}
	switch e.Op {
	case "At":
		e.Ret = []int{un(x.At(a[0]))}
	case "Set":
		x.SetEntry(a[0], z)
	case "AddTo":
		x.AddToEntry(a[0], z)
	case "Dim":
		e.Ret = []int{x.Dimension()}
	case "App":
		return vo(x.Append(z))
	case "AppVec":
		return vo(x.AppendVector(h.vec(e.Y)))
	case "SubVec":
		return vo(x.SubVector(a[0], a[1]))
	case "SetSubVec":
		x.SetSubVector(a[0], h.vec(e.Y))
	case "SetSubArr":
		x.(*linear.ArrayRealVector).SetSubVectorWithSlice(a[0], h.r1(e.Y))
	case "IsNaN":
		e.Ret = b2i(x.IsNaN())
	case "IsInf":
		e.Ret = b2i(x.IsInf())
	case "Add":
		return vo(x.Add(h.vec(e.Y)))
	case "Subt":
		return vo(x.Subtract(h.vec(e.Y)))
	case "EMul":
		return vo(x.EBEMultiply(h.vec(e.Y)))
	case "EDiv":
		return vo(x.EBEDivide(h.vec(e.Y)))
	case "MapAdd":
		x.MapAdd(z)
	case "MapSub":
		x.MapSubtract(z)
	case "MapMul":
		x.MapMultiply(fc(vs[0]))
	case "MapDiv":
		x.MapDivide(fc(vs[0]))
	case "Map":
		x.Map(mapFun(a[0]))
	case "CopyFrom":
		x.CopyFrom(h.vec(e.Y))
	case "Copy":
		return vo(x.Copy())
	case "Fill":
		x.Set(z)
	case "ToArr":
		return ao(x.ToArray())
	case "Ref":
		return ao(x.(dataRef1).DataRef())
	case "Comb":
		x.Combine(fc(vs[0]), fc(vs[1]), h.vec(e.Y))
	case "Eq":
		e.Ret = b2i(x.Equals(h.other(e.Y)))
	case "Entry": // an entry handed out earlier, looked at again
		it := h.its[e.X*1000+e.Z]
		if it == nil || len(it.kept) == 0 {
			panic("no entry")
		}
		k := e.I[0] % len(it.kept)
		e.I, e.V = []int{k}, []int{it.vals[k]}
		e.Ret = []int{it.kept[k].Index(), un(it.kept[k].Value())}
	case "Next", "HasNext":
		it := h.its[e.X*1000+e.Z]
		if it == nil {
			it = &iter{it: x.Iterator()}
			h.its[e.X*1000+e.Z] = it
		}
		e.I = []int{it.n}
		if e.Op == "HasNext" {
			e.Ret = b2i(it.it.HasNext())
			break
		}
		en := it.it.Next()
		it.n++
		e.Ret = []int{en.Index(), un(en.Value())}
		it.kept, it.vals = append(it.kept, en), append(it.vals, e.Ret[1])
	default:
		panic("unknown " + e.Op)
	}
	return nil
}

// must turns a returned error into a refusal; a result next to an error, or
// neither, counts as neither.
func must(err error, isNil bool) {
	if err != nil {
		if !isNil {
			panic("result and error")
		}
		panic(err)
	}
	if isNil {
		panic("neither result nor error")
	}
}

func (h *heap) execN(e *ev) *obj {
	a := e.I
	switch e.Op {
	case "Lit1":
		return ao(fls(e.V.([]int)))
	case "Lit2":
		return ro(flss(e.V.([][]int)))
	case "FMat":
		m, err := linear.NewArray2DRowRealMatrixFromSlices(flss(e.V.([][]int)), false)
		must(err, m == nil)
		return &obj{k: "fmat", m: foreignMat{m}}
	case "FVec":
		v, err := linear.NewArrayRealVector(fls(e.V.([]int)), false)
		must(err, v == nil)
		return &obj{k: "fvec", v: foreignVec{v}}
	case "Dims":
		m, err := linear.NewRealMatrixWithDimension(a[0], a[1])
		must(err, nilMat(m))
		return mo(m)
	case "Empty":
		switch a[0] {
		case 0:
			return mo(new(linear.Array2DRowRealMatrix))
		case 1:
			return mo(new(linear.BlockRealMatrix))
		}
		return mo(new(linear.DiagonalMatrix))
	case "ArrDims":
		m, err := linear.NewArray2DRowRealMatrix(a[0], a[1])
		must(err, m == nil)
		return mo(m)
	case "BlkDims":
		m, err := linear.NewBlockRealMatrix(a[0], a[1])
		must(err, m == nil)
		return mo(m)
	case "DiagDim":
		m, err := linear.NewDiagonalMatrixWithDimension(a[0])
		must(err, m == nil)
		return mo(m)
	case "Slices":
		m, err := linear.NewRealMatrixFromSlices(h.r2(e.Y))
		must(err, nilMat(m))
		return mo(m)
	case "ArrSlices":
		m, err := linear.NewArray2DRowRealMatrixFromSlices(h.r2(e.Y), a[0] == 1)
		must(err, m == nil)
		return mo(m)
	case "BlkSlices":
		m, err := linear.NewBlockRealMatrixFromSlices(h.r2(e.Y))
		must(err, m == nil)
		return mo(m)
	case "ArrCol":
		m, err := linear.NewArray2DRowRealMatrixFromSlice(h.r1(e.Y))
		must(err, m == nil)
		return mo(m)
	case "BlkData":
		m, err := linear.NewBlockRealMatrixFromBlockData(a[0], a[1], h.r2(e.Y))
		must(err, m == nil)
		return mo(m)
	case "Id":
		m, err := linear.NewRealIdentityMatrix(a[0])
		must(err, nilMat(m))
		return mo(m)
	case "WithDiag":
		m, err := linear.NewRealMatrixWithDiagonal(h.r1(e.Y))
		must(err, nilMat(m))
		return mo(m)
	case "RealDiag":
		m, err := linear.NewRealDiagonalMatrix(h.r1(e.Y))
		must(err, nilMat(m))
		return mo(m)
	case "DiagSlice":
		m, err := linear.NewDiagonalMatrixFromSlice(h.r1(e.Y))
		must(err, m == nil)
		return mo(m)
	case "Diag":
		m, err := linear.NewDiagonalMatrix(h.r1(e.Y), a[0] == 1)
		must(err, m == nil)
		return mo(m)
	case "Outer":
		return mo(linear.OuterProduct(h.vec(e.Y), h.vec(e.Z)))
	case "VSized":
		v, err := linear.NewSizedArrayRealVector(a[0])
		must(err, v == nil)
		return vo(v)
	case "VPreset":
		v, err := linear.NewSizedArrayRealVectorWithPreset(a[0], fl(e.vs()[0]))
		must(err, v == nil)
		return vo(v)
	case "VSlice":
		v, err := linear.NewArrayRealVectorFromSlice(h.r1(e.Y))
		must(err, v == nil)
		return vo(v)
	case "VReal":
		v, err := linear.NewRealVector(h.r1(e.Y))
		must(err, nilVec(v))
		return vo(v)
	case "VCopy":
		v, err := linear.NewArrayRealVectorCopy(h.vec(e.Y))
		must(err, v == nil)
		return vo(v)
	case "VArr":
		v, err := linear.NewArrayRealVector(h.r1(e.Y), a[0] == 1)
		must(err, v == nil)
		return vo(v)
	case "VWin":
		w := h.r1(e.Y)[a[0] : a[0]+a[1] : a[0]+a[1]]
		if len(a) > 2 { // with the rest of the array as spare capacity
			w = h.r1(e.Y)[a[0] : a[0]+a[1]]
		}
		v, err := linear.NewArrayRealVector(w, false)
		must(err, v == nil)
		return vo(v)
	case "VTwo":
		v, err := linear.NewArrayRealVectorFromTwoRealVector(h.vec(e.Y), h.vec(e.Z))
		must(err, v == nil)
		return vo(v)
	case "VTwoArr":
		y, _ := h.vec(e.Y).(*linear.ArrayRealVector)
		z, _ := h.vec(e.Z).(*linear.ArrayRealVector)
		v, err := linear.NewArrayRealVectorFromTwoArrayRealVector(y, z)
		must(err, v == nil)
		return vo(v)
	}
	panic("unknown " + e.Op)
}

// The factories return interfaces, which hold a nil pointer next to an error.
func nilMat(m linear.RealMatrix) bool {
	switch t := m.(type) {
	case nil:
		return true
	case *linear.Array2DRowRealMatrix:
		return t == nil
	case *linear.BlockRealMatrix:
		return t == nil
	case *linear.DiagonalMatrix:
		return t == nil
	}
	return false
}

func nilVec(v linear.RealVector) bool {
	if v == nil {
		return true
	}
	t, ok := v.(*linear.ArrayRealVector)
	return ok && t == nil
}

// sel is the selection s, or none at all if a says that list k is missing.
func sel(s []int, k int, a []int) []int {
	for _, i := range a {
		if i == k {
			return nil
		}
	}
	return s
}
