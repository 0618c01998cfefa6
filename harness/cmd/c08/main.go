// C08: a planar triangulation is a properly connected, consistently wound complex.
package main

import (
	"verif/pbt"
	"verif/plane"

	"pgregory.net/rapid"
)

func check(c plane.Case, r *pbt.R) {
	r.Label(c.Kind)
	t, err := plane.Run(c.P)
	if err != nil {
		r.Label("refused")
		return
	}
	if len(t.Triangles) > 0 {
		r.NonTrivial()
	}
	if s := plane.Structure(c.P, t, c.Exact); s != "" {
		r.Failf("%s", s)
	}
	// Euler: one disc. 3F = 2E - B, V - E + F = 1.
	f := len(t.Triangles) / 3
	if f == 0 {
		return
	}
	b, v := plane.Boundary(c.P, t)
	e := (3*f + b) / 2
	if (3*f+b)%2 != 0 || v-e+f != 1 {
		r.Failf("%d points, %d triangles and %d boundary edges do not form one disc", v, f, b)
	}
	if f > 40 {
		r.Label("over 40 triangles")
	}
	// Walking the boundary visits every boundary edge once.
	next := map[int]int{}
	start := -1
	for h, o := range t.Halfedges {
		if o == -1 {
			a, to := t.Triangles[h], t.Triangles[h-h%3+(h+1)%3]
			if _, dup := next[a]; dup {
				r.Failf("the boundary touches itself at point %d", a)
			}
			next[a] = to
			start = a
		}
	}
	n, at := 0, start
	for {
		to, ok := next[at]
		if !ok {
			r.Failf("the boundary ends at point %d", at)
		}
		n++
		at = to
		if at == start || n > b {
			break
		}
	}
	if n != b {
		r.Failf("the boundary falls into several loops")
	}
	if len(t.ConvexHull) != b {
		r.Failf("the hull has %d corners, the triangles have %d boundary edges", len(t.ConvexHull), b)
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C08",
		Rule:        "planar point sets: lattice points in several ranges, full lattice blocks, collinear sets with strays, concentric integer circles, clusters, parabola, rays, uniform and jittered floats, with duplicates, heights, shifts and power-of-two scales, and seeded sets of hundreds to thousands of points (lattices, rings, chains of flips a thousand deep, clusters, many scales); oracle: half-edges form an involution matching the corners, exact orientation of each triangle, Euler's formula for a disc, a single boundary loop as long as the hull. Non-trivial: at least one triangle.",
		Assumptions: []string{"coordinates below 1e28; distinct points further apart than 1e-7", "for non-lattice floats a triangle may be flat within 1e-12 of the squared extent"},
		Parts: []pbt.Part{
			pbt.P("small", 400000, 2000000, func(t *rapid.T) plane.Case { return plane.Points(t, 40) }, check),
			pbt.P("large", 8000, 40000, func(t *rapid.T) plane.Case { return plane.Points(t, 400) }, check),
			pbt.P("huge", 480, 4000, func(t *rapid.T) plane.Huge { return plane.DrawHuge(t, 400, 6000) }, func(h plane.Huge, r *pbt.R) { check(h.Case(), r) }),
			pbt.P("vast", 16, 200, func(t *rapid.T) plane.Huge { return plane.DrawHuge(t, 25000, 75000) }, func(h plane.Huge, r *pbt.R) { check(h.Case(), r) }),
		},
	})
}
