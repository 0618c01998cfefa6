// C10: the triangles cover the convex hull, use every point, and are refused only for flat input.
package main

import (
	"math"

	"verif/pbt"
	"verif/plane"

	"pgregory.net/rapid"
)

func check(c plane.Case, r *pbt.R) {
	r.Label(c.Kind)
	t, err := plane.Run(c.P)
	if len(c.P) == 0 {
		return
	}
	flat := plane.Flat(c.P)
	if flat {
		r.Label("on one line")
		r.NonTrivial()
		if err == nil && c.Exact {
			r.Failf("%d points on one line were triangulated without an error", len(c.P))
		}
		return
	}
	if err != nil {
		r.Failf("points that do not lie on one line were refused: %v", err)
	}
	r.NonTrivial()
	distinct := plane.Distinct(c.P)
	used := map[plane.Key]bool{}
	sum := 0.0
	for i, v := range t.Triangles {
		used[plane.At(c.P[v])] = true
		if i%3 == 0 {
			a, b, d := c.P[v], c.P[t.Triangles[i+1]], c.P[t.Triangles[i+2]]
			sum += math.Abs((b.X-a.X)*(d.Y-a.Y) - (b.Y-a.Y)*(d.X-a.X))
		}
	}
	for k := range distinct {
		if !used[k] {
			r.Failf("point %v of %d distinct points belongs to no triangle", k, len(distinct))
		}
	}
	want := plane.Area2(plane.Hull(c.P))
	if math.Abs(sum-want) > 1e-9*want {
		r.Failf("the triangles cover an area of %v, the convex hull has %v", sum/2, want/2)
	}
	if len(distinct) < len(c.P) {
		r.Label("with duplicates")
	}
	// The reported hull is the hull of the input.
	if a := plane.Area2(t.ConvexHull); math.Abs(a-want) > 1e-9*want {
		r.Failf("the reported hull has area %v, the convex hull has %v", a/2, want/2)
	}
	on := plane.Distinct(t.ConvexHull)
	for _, h := range plane.Hull(c.P) {
		if !on[plane.At(h)] && c.Exact {
			r.Failf("corner %v of the convex hull is not on the reported hull", plane.At(h))
		}
	}
	for k := range on {
		if !distinct[k] {
			r.Failf("the reported hull contains %v, which is not an input point", k)
		}
	}
	if len(t.Vectors) != len(c.P) {
		r.Failf("the triangulation holds %d points of %d", len(t.Vectors), len(c.P))
	}
	for i := range c.P {
		if t.Vectors[i] != c.P[i] {
			r.Failf("point %d of the triangulation is %v, the input has %v", i, t.Vectors[i], c.P[i])
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C10",
		Rule:        "planar point sets as for the structure check, including sets on one line, single points and duplicates; oracle: exact collinearity decides whether an error is due; area sum against an independently computed exact hull; every distinct position is a corner; reported hull against the exact one. Non-trivial: at least one point.",
		Assumptions: []string{"coordinates below 1e28; distinct points further apart than 1e-7", "collinear float sets that are not exactly collinear are left open"},
		Parts: []pbt.Part{
			pbt.P("small", 320000, 2000000, func(t *rapid.T) plane.Case { return plane.Points(t, 40) }, check),
			pbt.P("large", 6400, 40000, func(t *rapid.T) plane.Case { return plane.Points(t, 400) }, check),
			pbt.P("huge", 480, 4000, func(t *rapid.T) plane.Huge { return plane.DrawHuge(t, 400, 6000) }, func(h plane.Huge, r *pbt.R) { check(h.Case(), r) }),
			pbt.P("vast", 16, 200, func(t *rapid.T) plane.Huge { return plane.DrawHuge(t, 25000, 75000) }, func(h plane.Huge, r *pbt.R) { check(h.Case(), r) }),
		},
	})
}
