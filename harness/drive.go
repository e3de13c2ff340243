package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

// gen writes the scripts of one shard of one property.
type gen struct {
	*heap
	rng      *rand.Rand
	thorough bool
	n        int // scripts numbered so far
	shard    int
	shards   int
	seed     int64
	ds       *dsess
	scripts  int // scripts executed
	aborted  int

	ws     *wsess    // session of module Wild
	linger []int     // arguments that stay
	kept   func(int) // what becomes of arguments instead

	generated, diverged int // behaviours of the specification
}

type abort struct{}

// script runs f as the next script, if it falls to this shard.
func (g *gen) script(f func()) {
	g.n++
	if g.n%g.shards != g.shard {
		return
	}
	seed := g.seed*1000003 + int64(g.n)
	g.once(seed, f)
	if g.ds == nil && g.ws == nil && !tellDetails && rand.New(rand.NewSource(seed^0x5eed)).Intn(3) == 0 {
		// once more, with contents of another size
		setUnit(unitExps[int(seed/int64(g.shards))&3])
		g.once(seed, f)
		setUnit(0)
	}
}

func (g *gen) once(seed int64, f func()) {
	g.rng = rand.New(rand.NewSource(seed))
	g.scripts++
	g.linger, g.kept = nil, nil
	if g.ws != nil {
		g.ws.reset()
	} else if g.ds != nil {
		g.ds.reset(0)
	} else {
		g.reset()
	}
	defer func() {
		if r := recover(); r != nil && unit == 1 {
			g.aborted++
			if _, ok := r.(abort); !ok {
				fmt.Fprintln(os.Stderr, "script aborted:", r)
			}
		}
	}()
	f()
	if g.ds != nil {
		g.ds.again(len(g.ds.held))
	}
}

// repeat runs n random scripts (more in the thorough tier).
func (g *gen) repeat(n int, f func()) {
	if g.thorough {
		n *= 12
	}
	for i := 0; i < n; i++ {
		g.script(f)
	}
}

func (g *gen) pick(n int) int { return g.rng.Intn(n) }

func pickOf[T any](g *gen, s []T) T { return s[g.rng.Intn(len(s))] }

// Values, in sixteenths.
func (g *gen) quarter() int { return 4 * (g.pick(65) - 32) }
func (g *gen) integer() int { return 16 * (g.pick(9) - 4) }
func (g *gen) quarters(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = g.quarter()
	}
	return r
}

// entries up to two thousand next to small ones
func (g *gen) broad() int {
	if g.pick(3) == 0 {
		return g.quarter()
	}
	return 16 * (g.pick(4001) - 2000)
}

var specials = []int{cNaN, cPInf, cNInf}

// quarters, zeros and specials
func (g *gen) special() int {
	switch g.pick(6) {
	case 0, 1:
		return pickOf(g, specials)
	case 2:
		return 0
	}
	return g.quarter()
}

// zeros with a few specials
func (g *gen) hollow() int {
	if g.pick(4) > 0 {
		return 0
	}
	return pickOf(g, []int{cNaN, cPInf, cNInf, 16, -16})
}

func vecOf(n int, f func() int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = f()
	}
	return r
}

func matOf(r, c int, f func() int) [][]int {
	m := make([][]int, r)
	for i := range m {
		m[i] = vecOf(c, f)
	}
	return m
}

// Calls.
func (g *gen) ev(t, op string, x, y int, i []int, v ...int) *ev {
	e := &ev{T: t, Op: op, X: x, Y: y, I: append([]int{}, i...)}
	if v != nil {
		e.V = v
	}
	return e
}
func (g *gen) M(op string, x, y int, i []int, v ...int) int {
	return g.do(g.ev("M", op, x, y, i, v...))
}
func (g *gen) V(op string, x, y int, i []int, v ...int) int {
	return g.do(g.ev("V", op, x, y, i, v...))
}
func (g *gen) N(op string, y int, i []int, v ...int) int { return g.do(g.ev("N", op, 0, y, i, v...)) }
func (g *gen) Q(op string, x, y int) int                 { return g.do(g.ev("Q", op, x, y, nil)) }
func (g *gen) QZ(op string, x, y, z int) int {
	e := g.ev("Q", op, x, y, nil)
	e.Z = z
	return g.do(e)
}
func (g *gen) R(x, v int, i ...int) int { return g.do(g.ev("R", "set", x, 0, i, v)) }

// need stops the script when a construction it depends on failed.
func need(id int) int {
	if id == 0 {
		panic(abort{})
	}
	return id
}

func (g *gen) raw1(v []int) int {
	if v == nil {
		v = []int{}
	}
	return need(g.do(&ev{T: "N", Op: "Lit1", V: v}))
}
func (g *gen) raw2(v [][]int) int { return need(g.do(&ev{T: "N", Op: "Lit2", V: v})) }

// mkM makes a matrix of a kind (for "diag", with the diagonal of m).
func (g *gen) mkM(kind string, m [][]int) int {
	if kind == "fmat" {
		return need(g.do(&ev{T: "N", Op: "FMat", V: m}))
	}
	if kind == "diag" {
		d := make([]int, len(m))
		for i := range d {
			d[i] = m[i][i]
		}
		a := g.raw1(d)
		id := need(g.N("Diag", a, []int{1}))
		g.drop(a)
		return id
	}
	a := g.raw2(m)
	var id int
	if kind == "arr" {
		id = need(g.N("ArrSlices", a, []int{min(1, g.pick(3))}))
	} else {
		id = need(g.N("BlkSlices", a, nil))
	}
	g.drop(a)
	return id
}

func (g *gen) mk(kind string, r, c int) int { return g.mkM(kind, matOf(r, c, g.quarter)) }

func (g *gen) mkV(kind string, v []int) int {
	if kind == "fvec" {
		return need(g.do(&ev{T: "N", Op: "FVec", V: v}))
	}
	a := g.raw1(v)
	var id int
	if g.pick(3) > 0 {
		id = need(g.N("VSlice", a, nil))
	} else {
		id = need(g.N("VArr", a, []int{0}))
	}
	g.drop(a)
	return id
}

// free drops a result once it has been seen.
func (g *gen) free(id int) {
	if id != 0 {
		g.drop(id)
	}
}

func (g *gen) dims(id int) (int, int) {
	m := g.mat(id)
	return m.RowDimension(), m.ColumnDimension()
}

// tame reports that all live contents are small and, if quarters is set,
// multiples of a quarter, so that the next product stays exact.
func (g *gen) tame(quarters bool) bool {
	for _, id := range g.order {
		for _, r := range g.objs[id].prev {
			for _, k := range r {
				if k >= cOff {
					continue
				}
				if k > 1<<20 || k < -(1<<20) || (quarters && (k%4 != 0 || k > 1<<13 || k < -(1<<13))) {
					return false
				}
			}
		}
	}
	return true
}

type driver struct {
	name string
	run  func(g *gen)
}

var drivers = map[string]func(g *gen){}

func main() {
	prop := flag.String("prop", "", "property")
	out := flag.String("out", "", "output directory")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "number of shards")
	scripts := flag.String("scripts", "", "behaviours of the specification to carry out as well")
	flag.Parse()
	d := drivers[*prop]
	if d == nil {
		fmt.Fprintln(os.Stderr, "no driver for", *prop)
		os.Exit(3)
	}
	name := filepath.Join(*out, fmt.Sprintf("trace-%d.ndjson", *shard))
	s := newSink(name)
	g := &gen{heap: newHeap(s), thorough: *tier == "thorough", shard: *shard, shards: *shards, seed: *seed}
	if (*prop >= "C11" && *prop <= "C21") || *prop == "C25" {
		g.ds = &dsess{out: s, stats: g.stats}
	}
	if *prop == "C26" {
		g.ws = &wsess{out: s, stats: g.stats}
	}
	d(g)
	if *scripts != "" {
		for _, f := range strings.Split(*scripts, ",") {
			g.follow(f)
		}
	}
	s.close()
	st := map[string]interface{}{"scripts": g.scripts, "generated": g.generated, "diverged": g.diverged, "lines": s.lines, "aborted": g.aborted, "calls": g.stats}
	b, _ := json.Marshal(st)
	if err := os.WriteFile(filepath.Join(*out, fmt.Sprintf("stats-%d.json", *shard)), b, 0o644); err != nil {
		panic(err)
	}
}
