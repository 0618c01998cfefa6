// C09: planar triangulations are Delaunay.
package main

import (
	ex "verif/exact"
	"verif/pbt"
	"verif/plane"

	"pgregory.net/rapid"
)

func check(c plane.Case, r *pbt.R) {
	r.Label(c.Kind)
	t, err := plane.Run(c.P)
	if err != nil {
		r.Label("refused")
		return
	}
	ties := false
	for i := 0; i+2 < len(t.Triangles); i += 3 {
		a, b, d := c.P[t.Triangles[i]], c.P[t.Triangles[i+1]], c.P[t.Triangles[i+2]]
		if !c.Exact && plane.Sliver(a, b, d, plane.Extent(c.P)) {
			continue
		}
		for _, p := range c.P {
			s, ok := ex.InCircle(a, b, d, p)
			if !ok {
				if c.Exact {
					r.Failf("triangle %v %v %v is flat", plane.At(a), plane.At(b), plane.At(d))
				}
				break
			}
			k := plane.At(p)
			if s == 0 && k != plane.At(a) && k != plane.At(b) && k != plane.At(d) {
				ties = true
			}
			if s > 0 && (c.Exact || ex.InCircleMargin(a, b, d, p) > 1e-10) {
				r.Failf("point %v lies inside the circumcircle of triangle %v %v %v", k, plane.At(a), plane.At(b), plane.At(d))
			}
		}
	}
	if len(t.Triangles) > 3 {
		r.NonTrivial()
		r.Label("several triangles")
	}
	if ties {
		r.Label("with cocircular points")
	}
	if len(t.Triangles) == 0 && !plane.Flat(c.P) {
		r.Failf("no triangles for points that do not lie on one line")
	}
}

// local checks only across shared edges, which is enough for a valid complex and cheap on large sets.
func local(c plane.Case, r *pbt.R) {
	r.Label(c.Kind)
	t, err := plane.Run(c.P)
	if err != nil {
		r.Label("refused")
		return
	}
	r.NonTrivialIf(len(t.Triangles) > 3)
	ext := 0.0
	if len(c.P) > 0 {
		ext = plane.Extent(c.P)
	}
	for h, o := range t.Halfedges {
		if o < h {
			continue
		}
		a, b, d := c.P[t.Triangles[h-h%3]], c.P[t.Triangles[h-h%3+1]], c.P[t.Triangles[h-h%3+2]]
		p := c.P[t.Triangles[o-o%3+(o+2)%3]]
		if !c.Exact && (plane.Sliver(a, b, d, ext) || plane.Sliver(a, b, p, ext) || plane.Sliver(b, d, p, ext) || plane.Sliver(a, d, p, ext)) {
			continue
		}
		s, ok := ex.InCircle(a, b, d, p)
		if ok && s > 0 && (c.Exact || ex.InCircleMargin(a, b, d, p) > 1e-10) {
			r.Failf("point %v lies inside the circumcircle of its neighbour %v %v %v", plane.At(p), plane.At(a), plane.At(b), plane.At(d))
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C09",
		Rule:        "planar point sets as for the structure check; oracle: exact in-circle test of every point against every triangle (sets up to 40 points), of every edge's opposite corner (larger sets, up to 75000 points). Non-trivial: more than one triangle.",
		Assumptions: []string{"coordinates below 1e28; distinct points further apart than 1e-7", "for non-lattice floats violations below 1e-10 of the determinant's magnitude are rounding, as are triangles flatter than 1e-9 of the squared extent"},
		Parts: []pbt.Part{
			pbt.P("small", 60000, 1500000, func(t *rapid.T) plane.Case { return plane.Points(t, 40) }, check),
			pbt.P("large", 1600, 40000, func(t *rapid.T) plane.Case { return plane.Points(t, 400) }, local),
			pbt.P("huge", 480, 4000, func(t *rapid.T) plane.Huge { return plane.DrawHuge(t, 400, 6000) }, func(h plane.Huge, r *pbt.R) { local(h.Case(), r) }),
			pbt.P("vast", 16, 200, func(t *rapid.T) plane.Huge { return plane.DrawHuge(t, 25000, 75000) }, func(h plane.Huge, r *pbt.R) { local(h.Case(), r) }),
		},
	})
}
