package main

// Requests that are to be refused, for what the refusals say.
func init() {
	drivers["C24"] = func(g *gen) {
		tellDetails = true
		driveC04(g)
		driveC23(g)
		singular := func(kind string) {
			g.script(func() {
				for n := 1; n <= 5; n++ {
					a := matOf(n, n, func() int { return 0 })
					for i := range a {
						a[i][i] = pickOf(g, []int{0, 16, -32, 64, 128})
					}
					id := g.mkM(kind, a)
					for _, t := range []int{0, 16, 64} {
						g.free(g.M("Inv", id, 0, nil, t))
					}
					g.drop(id)
				}
			})
		}
		for i := 0; i < 4; i++ {
			singular("diag")
		}
		// a destination one row of which is too short
		for _, kind := range []string{"arr", "blk", "fmat"} {
			g.script(func() {
				r, c := 2+g.pick(4), 2+g.pick(4)
				id := g.mk(kind, r, c)
				for k := -1; k < r; k++ {
					d := make([][]int, r+g.pick(2))
					for i := range d {
						d[i] = make([]int, c+g.pick(3))
						if i == k {
							d[i] = d[i][:g.pick(c)]
						}
					}
					y := g.raw2(d)
					g.M("CopySub", id, y, []int{0, r - 1, 0, c - 1})
					e := g.ev("M", "CopySel", id, y, nil)
					e.RS, e.CS = g.perm(r), g.perm(c)
					g.do(e)
					g.drop(y)
				}
			})
		}
		for n := 0; n <= 4; n++ {
			n := n
			g.script(func() {
				z := make([]int, n)
				for _, kind := range vecKinds {
					x, y := g.mkV(kind, z), g.mkV(kind, g.quarters(n))
					if kind == "vec" {
						g.Q("Unit", x, 0)
						g.Q("Unitize", x, 0)
					}
					if n > 0 {
						g.Q("Cos", x, y)
						g.Q("Cos", y, x)
						g.Q("Proj", y, x)
					}
				}
			})
		}
	}
	drivers["C25"] = driveC25
}

func driveC25(g *gen) {
	tellDetails = true
	kinds := []string{"LU", "Chol", "RChol", "QR", "RRQR", "SVD", "Eigen", "Hess", "Schur", "Tri"}
	heights := func(r int) []int { return []int{r, r - 1, r + 1, 2*r + 1, 1} }
	ask := func(k string, d int, a [][]int) {
		if d == 0 {
			return
		}
		switch k {
		case "RChol", "Hess", "Schur", "Tri":
			return
		case "Chol":
			if !isSym(a) {
				return
			}
		case "SVD":
			if g.pick(2) == 0 {
				g.ds.get(d, "SV", 0)
			}
			for _, c := range []float64{0.5, 40, 1000} {
				g.ds.get(d, "Cov", c)
			}
		case "Eigen", "EigenTri":
			g.ds.get(d, "Re", 0)
			g.ds.get(d, "Sqrt", 0)
			g.ds.get(d, "HasC", 0)
		}
		g.ds.get(d, "NS", 0)
		for _, h := range heights(len(a)) {
			if h < 1 {
				continue
			}
			g.ds.solve(d, "vec", pickOf(g, vecKinds), g.rnd(h, 1, 3))
			g.ds.solve(d, "mat", pickOf(g, storages), g.rnd(h, g.between(1, 4), 3))
			if h < 4 && g.pick(4) == 0 {
				g.ds.solve(d, "mat", pickOf(g, storages), g.rnd(h, 53, 3))
			}
		}
		g.ds.solve(d, "inv", "", nil)
	}
	try := func(k string, a [][]int, thr []float64) {
		m := g.ds.mat(g.storage(a), a)
		ask(k, g.ds.build(k, m, thr, nil), a)
	}
	cholThr := func() []float64 {
		return []float64{pickOf(g, []float64{1e-15, 0.07, 0.41, 2}), pickOf(g, []float64{1e-10, 0.3, 1.9, 4.1})}
	}
	// every small shape
	for _, k := range kinds {
		k := k
		for r := 1; r <= 5; r++ {
			for c := 1; c <= 5; c++ {
				r, c := r, c
				g.script(func() {
					try(k, g.rnd(r, c, 3), thresholds[k])
					try(k, g.lowRank(r, c, g.between(1, 2), 2).a, thresholds[k])
				})
			}
		}
	}
	// asymmetric and indefinite matrices, mistakes at every position
	for n := 2; n <= 6; n++ {
		n := n
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				i, j := i, j
				g.script(func() {
					for k := 0; k < 3; k++ {
						b := g.lowerTri(n, 2)
						a := imul(b, itr(b))
						a[i][j] += pickOf(g, []int{1, -1, 3, -9})
						try("Chol", a, thresholds["Chol"])
						try("Chol", a, cholThr())
						try("RChol", symm(a), thresholds["RChol"])
						a = symm(a)
						a[i][i] -= g.between(1, 9)
						try("Chol", a, thresholds["Chol"])
						try("RChol", a, thresholds["RChol"])
					}
				})
			}
		}
	}
	g.repeat(150, func() {
		n := g.between(1, 5)
		try("Chol", symm(g.rnd(n, n, 4)), cholThr())
		try("Chol", g.rnd(n, n, 4), cholThr())
		x := g.gram(n, g.between(1, n), 2)
		try("Chol", x.a, cholThr())
		try("RChol", symm(g.rnd(n, n, 3)), []float64{pickOf(g, []float64{1e-9, 0.3, 2.7})})
		for k := 0; k < 4; k++ {
			n := g.between(2, 4)
			a := symm(g.rnd(n, n, 3))
			for i := range a {
				a[i][i] = g.between(0, 4)
			}
			try("RChol", a, []float64{1e-9})
		}
		for _, k := range []string{"LU", "QR", "RRQR", pickOf(g, kinds)} {
			try(k, g.rnd(n, n, 2), thresholds[k])
			try(k, g.lowRank(n, n, g.between(1, n), 2).a, thresholds[k])
		}
		try("Eigen", g.rnd(n, n, 3), nil)
		try("Eigen", symm(g.rnd(n, n, 2)), nil)
		try("Eigen", g.lowRank(n, n, g.between(1, n), 2).a, nil)
	})
	// diagonals of a tridiagonal matrix that do not go together
	for n := 0; n <= 4; n++ {
		for m := 0; m <= 5; m++ {
			n, m := n, m
			g.script(func() {
				v := vecOf(n, func() int { return g.between(-3, 3) })
				w := vecOf(m, func() int { return g.between(-3, 3) })
				d := g.ds.buildTri(v, w)
				if d != 0 {
					ask("EigenTri", d, imat(n, 1, func(i, j int) int { return 0 }))
				}
			})
		}
	}
	// beyond one block
	for _, k := range kinds {
		k := k
		g.script(func() {
			try(k, g.rnd(53, 52, 2), thresholds[k])
			try(k, g.rnd(3, 53, 2), thresholds[k])
			try(k, g.rnd(53, 3, 2), thresholds[k])
		})
	}
}
