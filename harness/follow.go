package main

import (
	"bufio"
	"encoding/json"
	"os"
)

// A call of a behaviour generated from the specification (HeapGen!Brief);
// N is the object it makes there.
type planned struct {
	T, Op   string
	X, Y, Z int
	I       []int
	V       []json.RawMessage
	RS, CS  []int
	Bnd     int
	Upd     int
	Fin     int
	Ord     string
	N       int
}

// follow carries out the behaviours in a file, one per line.  What the
// library does is recorded like any other call; if it makes an object where
// the specification makes none, or none where it makes one, the rest of the
// behaviour has no meaning and is left out (the trace shows the difference).
func (g *gen) follow(file string) {
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		line := append([]byte{}, sc.Bytes()...)
		g.script(func() {
			if g.ds != nil {
				g.followDec(line)
				return
			}
			var ps []planned
			if err := json.Unmarshal(line, &ps); err != nil {
				panic(err)
			}
			if unit == 1 {
				g.generated++
			}
			for _, p := range ps {
				e := &ev{T: p.T, Op: p.Op, X: p.X, Y: p.Y, Z: p.Z, I: p.I, RS: p.RS, CS: p.CS, Bnd: p.Bnd, Upd: p.Upd, Fin: p.Fin, Ord: p.Ord}
				var one []int
				two := [][]int{}
				for _, r := range p.V {
					var k int
					var l []int
					if json.Unmarshal(r, &k) == nil {
						one = append(one, k)
					} else if err := json.Unmarshal(r, &l); err == nil {
						two = append(two, l)
					} else {
						panic(err)
					}
				}
				if len(two) > 0 {
					e.V = two
				} else if one != nil {
					e.V = one
				}
				ok := g.applicable(e)
				if ok {
					g.do(e)
				}
				if !ok || e.N != p.N {
					if unit == 1 {
						g.diverged++
					}
					return
				}
			}
		})
	}
	if err := sc.Err(); err != nil {
		panic(err)
	}
}

// applicable reports whether the objects have the kinds the call needs (the
// library is free to choose the kind of some results).
func (g *gen) applicable(e *ev) bool {
	o := g.objs[e.X]
	switch {
	case e.Op == "Ref" && e.T == "M":
		if _, ok := o.m.(dataRef2); ok {
			return o.k == "arr"
		}
		_, ok := o.m.(dataRef1)
		return ok
	case e.Op == "Inv" || e.Op == "IsSing":
		return o.k == "diag"
	}
	return true
}

// followDec carries out a history of requests (DecGen), then asks every
// decomposition for everything.
func (g *gen) followDec(line []byte) {
	var es []dev
	if err := json.Unmarshal(line, &es); err != nil {
		panic(err)
	}
	g.generated++
	var ms, ds []int
	kind := ""
	for _, e := range es {
		switch e.T {
		case "mat":
			ms = append(ms, g.ds.mat(e.K, e.A))
		case "build":
			d := g.ds.build(e.K, ms[e.M-1], thresholds[e.K], e.W)
			if d == 0 {
				g.diverged++
				return
			}
			kind = e.K
			ds = append(ds, d)
		case "get":
			g.askOne(ds[e.D-1], e.K, e.Q, 0.7)
		case "solve":
			g.ds.solve(ds[e.D-1], e.Q, "arr", e.A)
		case "poke":
			g.ds.poke(ds[e.D-1], e.Q)
		case "write":
			g.ds.write(ms[e.M-1], e.I[0], e.I[1], e.N[0])
		}
	}
	for _, d := range ds {
		g.ask(d, kind, 0.7)
	}
	for _, m := range ms {
		g.ds.peek(m)
	}
}
