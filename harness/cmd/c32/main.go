// C32: the 3D meshing's output is well formed and independent of the order of the points.
package main

import (
	"fmt"
	"sort"

	mesh "geGoMetry/meshing"
	"geGoMetry/r3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct {
	P     []r3.Vector
	Order []int
}

// canon lists the triangles by original point number, sorted, with repetition.
func canon(out []int, number []int, n int, r *pbt.R) []string {
	if len(out)%3 != 0 {
		r.Failf("%d indices", len(out))
	}
	var s []string
	for i := 0; i < len(out); i += 3 {
		t := []int{out[i], out[i+1], out[i+2]}
		for k := range t {
			if t[k] < 0 || t[k] >= n {
				r.Failf("index %d with %d points", t[k], n)
			}
			t[k] = number[t[k]]
		}
		sort.Ints(t)
		if t[0] == t[1] || t[1] == t[2] {
			r.Failf("triangle %v repeats a point", out[i:i+3])
		}
		s = append(s, fmt.Sprint(t))
	}
	sort.Strings(s)
	return s
}

func check(c Case, r *pbt.R) {
	n := len(c.P)
	for _, q := range quints(n) {
		if _, m := ex.SphereMargin(c.P[q[0]], c.P[q[1]], c.P[q[2]], c.P[q[3]], c.P[q[4]]); m < 1e-10 {
			r.Label("nearly cospherical")
			return
		}
	}
	for _, q := range quads(n) {
		if ex.OrientMargin(c.P[q[0]], c.P[q[1]], c.P[q[2]], c.P[q[3]]) < 1e-7 {
			r.Label("nearly flat")
			return
		}
	}
	judge(c.P, c.Order, r)
}

type Large struct{ gen.Scatter }

func checkLarge(c Large, r *pbt.R) { judge(c.Points(), c.Order(), r) }

func judge(p []r3.Vector, order []int, r *pbt.R) {
	n := len(p)
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	// The caller's slice may have room behind its end.
	in := gen.Roomy(p)
	a := canon(mesh.VerifBowyerWatson(in...), id, n, r)
	for i := range in {
		if in[i] != p[i] {
			r.Failf("meshing changed input point %d from %v to %v", i, p[i], in[i])
		}
	}
	b := canon(mesh.VerifBowyerWatson(append([]r3.Vector(nil), p...)...), id, n, r)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		r.Failf("meshing twice: %v and %v", a, b)
	}
	q := make([]r3.Vector, n)
	for i, k := range order {
		q[i] = p[k]
	}
	d := canon(mesh.VerifBowyerWatson(q...), order, n, r)
	if fmt.Sprint(a) != fmt.Sprint(d) {
		r.Failf("in another order: %v instead of %v", d, a)
	}
	// Doubling all coordinates is exact and changes nothing.
	for i, v := range p {
		q[i] = r3.Vector{X: 2 * v.X, Y: 2 * v.Y, Z: 2 * v.Z}
	}
	e := canon(mesh.VerifBowyerWatson(q...), id, n, r)
	if fmt.Sprint(a) != fmt.Sprint(e) {
		r.Failf("at double size: %v instead of %v", e, a)
	}
	if n < 3 && len(a) > 0 {
		r.Failf("%d points give triangles %v", n, a)
	}
	r.NonTrivialIf(len(a) > 4)
	if n > 200 {
		r.Label("more than 200 points")
	} else if n <= 14 {
		r.Label("%d points", n)
	} else {
		r.Label("%d+ points", n/20*20)
	}
}

func quads(n int) (out [][4]int) {
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			for c := b + 1; c < n; c++ {
				for d := c + 1; d < n; d++ {
					out = append(out, [4]int{a, b, c, d})
				}
			}
		}
	}
	return
}

func quints(n int) (out [][5]int) {
	for _, q := range quads(n) {
		for e := q[3] + 1; e < n; e++ {
			out = append(out, [5]int{q[0], q[1], q[2], q[3], e})
		}
	}
	return
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C32",
		Rule:        "0 to 14 points in general position and seeded clouds of up to 1200 points (copies of a cluster, rings around an axis, lattice points, uniform floats over several magnitudes) with a permutation; oracle: indices in range, three different corners per triangle, input untouched, the same multiset of triangles for a repeated call, a permuted input and doubled coordinates. Non-trivial: more than four triangles.",
		Assumptions: []string{"no four points coplanar within 1e-7, no five cospherical within 1e-10"},
		Parts: []pbt.Part{
			pbt.P("order", 20000, 120000, func(t *rapid.T) Case {
				n := rapid.IntRange(0, 10).Draw(t, "n")
				if rapid.IntRange(0, 5).Draw(t, "more") == 0 {
					n += 4
				}
				s := rapid.SampledFrom([]float64{0.01, 1, 10, 1e3}).Draw(t, "s")
				o := gen.Box(t, "o", -2*s, 2*s)
				lattice := rapid.IntRange(0, 3).Draw(t, "lattice") == 0
				var c Case
				idx := make([]int, n)
				for i := 0; i < n; i++ {
					idx[i] = i
					if lattice {
						c.P = append(c.P, gen.IntVec(t, "p", 12))
					} else {
						c.P = append(c.P, r3.Add(o, gen.Box(t, "p", -s, s)))
					}
				}
				if n > 0 {
					c.Order = rapid.Permutation(idx).Draw(t, "order")
				}
				return c
			}, check),
			pbt.P("large", 480, 6000, func(t *rapid.T) Large { return Large{gen.Scatter{}.Draw(t, 15, 160)} }, checkLarge),
			pbt.P("vast", 300, 1500, func(t *rapid.T) Large { return Large{gen.Scatter{}.Draw(t, 300, 1200)} }, checkLarge),
			pbt.P("ring", 300, 3000, func(t *rapid.T) Large {
				s := gen.Scatter{}.Draw(t, 104, 260)
				s.Shape = 6
				return Large{s}
			}, checkLarge),
		},
	})
}
