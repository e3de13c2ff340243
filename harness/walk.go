package main

import "github.com/jtejido/linear"

// Visitors that write down what they are told.  An updating visitor answers
// with upd(visit number, row, column, value).
type pv struct {
	e *ev
	a *actor
}

func (p pv) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {
	p.e.Start = append(p.e.Start, rows, columns, startRow, endRow, startColumn, endColumn)
}
func (p pv) Visit(row, column int, value float64) {
	k := un(value)
	p.a.act(len(p.e.Vis))
	p.e.Vis = append(p.e.Vis, []int{row, column, k, k})
	breakOff(p.e, len(p.e.Vis)-1)
}
func (p pv) End() float64 { p.e.Ends++; return fl(p.e.Fin) }

type cv struct {
	e   *ev
	a   *actor
	upd func(n, row, column, value int) int
}

func (c cv) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {
	c.e.Start = append(c.e.Start, rows, columns, startRow, endRow, startColumn, endColumn)
}
func (c cv) Visit(row, column int, value float64) float64 {
	k := un(value)
	c.a.act(len(c.e.Vis))
	w := c.upd(len(c.e.Vis), row, column, k)
	c.e.Vis = append(c.e.Vis, []int{row, column, k, w})
	breakOff(c.e, len(c.e.Vis)-1)
	return fl(w)
}
func (c cv) End() float64 { c.e.Ends++; return fl(c.e.Fin) }

type vpv struct {
	e *ev
	a *actor
}

func (p vpv) Start(dimension, start, end int) {
	p.e.Start = append(p.e.Start, dimension, start, end)
}
func (p vpv) Visit(index int, value float64) {
	k := un(value)
	p.a.act(len(p.e.Vis))
	p.e.Vis = append(p.e.Vis, []int{index, k, k})
	breakOff(p.e, len(p.e.Vis)-1)
}
func (p vpv) End() float64 { p.e.Ends++; return fl(p.e.Fin) }

type vcv struct {
	e   *ev
	a   *actor
	upd func(n, index, value int) int
}

func (c vcv) Start(dimension, start, end int) {
	c.e.Start = append(c.e.Start, dimension, start, end)
}
func (c vcv) Visit(index int, value float64) float64 {
	k := un(value)
	c.a.act(len(c.e.Vis))
	w := c.upd(len(c.e.Vis), index, k)
	c.e.Vis = append(c.e.Vis, []int{index, k, w})
	breakOff(c.e, len(c.e.Vis)-1)
	return fl(w)
}
func (c vcv) End() float64 { c.e.Ends++; return fl(c.e.Fin) }

// A visitor with number "bk" does not come back from visit number e.Z.
type brokenOff struct{}

func breakOff(e *ev, n int) {
	if e.Op == "bk" && n == e.Z%100 {
		panic(brokenOff{})
	}
}

// What a visitor with number "re" does to the object under traversal before it
// answers: it may write one entry, and reads another one back.  Written down
// in e.Acts as row, column and value of the write (row -1: none) and of the
// read.
type actor struct {
	e    *ev
	r, c int
	diag bool
	get  func(i, j int) float64
	set  func(i, j int, v float64)
}

func (a *actor) act(n int) {
	e := a.e
	if e.Op != "re" {
		return
	}
	at := func(k int) (int, int) {
		k %= a.r * a.c
		if e.Ord == "col" {
			return k % a.r, k / a.r
		}
		return k / a.c, k % a.c
	}
	rec := []int{-1, 0, 0, 0, 0, 0}
	if n%3 != 2 {
		// often the entry after the one under way, or that one itself
		i, j := at(n + []int{1, 2, 0, 5, 1, 3}[(n+e.Z)%6])
		if a.diag {
			j = i
		}
		rec[0], rec[1], rec[2] = i, j, 16*(200+n)
		a.set(i, j, fl(rec[2]))
	}
	if n > 0 && n%2 == 1 {
		// what the last visit answered
		rec[3], rec[4] = e.Vis[n-1][0], e.Vis[n-1][1]
		if a.r == 1 && len(e.Vis[n-1]) == 3 {
			rec[3], rec[4] = 0, e.Vis[n-1][0]
		}
	} else {
		rec[3], rec[4] = at(n*3 + e.Z)
	}
	rec[5] = un(a.get(rec[3], rec[4]))
	e.Acts = append(e.Acts, rec)
}

// The answers of an updating visitor, chosen by the number in e.Op: new
// distinct values, values derived from the old ones, and for diagonal
// matrices zeros off the diagonal (except at one visit for number 4).
func updFun(e *ev) func(n, row, column, value int) int {
	switch e.Op {
	case "re", "bk":
		return func(n, row, column, value int) int {
			if e.Z >= 100 && row != column {
				return 0
			}
			return 16 * (n + 11)
		}
	case "u1":
		return func(n, row, column, value int) int { return 16 * (n + 7) }
	case "u2":
		return func(n, row, column, value int) int { return -value + 16*row - 32*column }
	case "u3":
		return func(n, row, column, value int) int {
			if row == column {
				return 16 * (n + 5)
			}
			return 0
		}
	case "u5":
		return func(n, row, column, value int) int {
			if row != column && e.Z == 7 {
				return 0
			}
			return []int{16 * (n + 1), cNaN, value, cPInf, 0, cNInf, 16 * n}[(n+e.Z)%7]
		}
	case "u4":
		bad := e.Z
		return func(n, row, column, value int) int {
			if row == column || n == bad {
				return 16 * (n + 3)
			}
			return 0
		}
	}
	return func(n, row, column, value int) int { return value }
}

func (h *heap) execW(e *ev) {
	m := h.objs[e.X].m
	var f float64
	act := &actor{e: e, r: m.RowDimension(), c: m.ColumnDimension(), diag: e.Z >= 100, get: m.At, set: m.SetEntry}
	p, c := pv{e, act}, cv{e, act, updFun(e)}
	a := e.I
	var _ linear.RealMatrixPreservingVisitor = p
	if e.Upd == 0 {
		switch {
		case e.Ord == "row" && e.Bnd == 0:
			f = m.WalkInRowOrder(p)
		case e.Ord == "row":
			f = m.WalkInRowOrderBounded(p, a[0], a[1], a[2], a[3])
		case e.Ord == "col" && e.Bnd == 0:
			f = m.WalkInColumnOrder(p)
		case e.Ord == "col":
			f = m.WalkInColumnOrderBounded(p, a[0], a[1], a[2], a[3])
		case e.Bnd == 0:
			f = m.WalkInOptimizedOrder(p)
		default:
			f = m.WalkInOptimizedOrderBounded(p, a[0], a[1], a[2], a[3])
		}
	} else {
		switch {
		case e.Ord == "row" && e.Bnd == 0:
			f = m.WalkInUpdateRowOrder(c)
		case e.Ord == "row":
			f = m.WalkInUpdateRowOrderBounded(c, a[0], a[1], a[2], a[3])
		case e.Ord == "col" && e.Bnd == 0:
			f = m.WalkInUpdateColumnOrder(c)
		case e.Ord == "col":
			f = m.WalkInUpdateColumnOrderBounded(c, a[0], a[1], a[2], a[3])
		case e.Bnd == 0:
			f = m.WalkInUpdateOptimizedOrder(c)
		default:
			f = m.WalkInUpdateOptimizedOrderBounded(c, a[0], a[1], a[2], a[3])
		}
	}
	e.Ret = []int{un(f)}
}

func (h *heap) execVW(e *ev) {
	v := h.objs[e.X].v
	var f float64
	u := updFun(e)
	act := &actor{e: e, r: 1, c: v.Dimension(), get: func(_, j int) float64 { return v.At(j) }, set: func(_, j int, f float64) { v.SetEntry(j, f) }}
	p, c := vpv{e, act}, vcv{e, act, func(n, index, value int) int { return u(n, index, 0, value) }}
	a := e.I
	if e.Upd == 0 {
		switch {
		case e.Ord == "def" && e.Bnd == 0:
			f = v.WalkInDefaultOrder(p)
		case e.Ord == "def":
			f = v.WalkInDefaultOrderBounded(p, a[0], a[1])
		case e.Bnd == 0:
			f = v.WalkInOptimizedOrder(p)
		default:
			f = v.WalkInOptimizedOrderBounded(p, a[0], a[1])
		}
	} else {
		switch {
		case e.Ord == "def" && e.Bnd == 0:
			f = v.WalkInUpdateDefaultOrder(c)
		case e.Ord == "def":
			f = v.WalkInUpdateDefaultOrderBounded(c, a[0], a[1])
		case e.Bnd == 0:
			f = v.WalkInUpdateOptimizedOrder(c)
		default:
			f = v.WalkInUpdateOptimizedOrderBounded(c, a[0], a[1])
		}
	}
	e.Ret = []int{un(f)}
}
