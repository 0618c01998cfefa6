// C12: the convex hull.
package main

import (
	"math"

	"geGoMetry/r3"
	tri "geGoMetry/triangulate2"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"
	"verif/plane"

	"pgregory.net/rapid"
)

func check(c plane.Case, r *pbt.R) {
	r.Label(c.Kind)
	in := gen.Roomy(c.P)
	got := tri.ConvexHull(in)
	for i := range in {
		if in[i] != c.P[i] {
			r.Failf("the input changed at %d: %v became %v", i, c.P[i], in[i])
		}
	}
	member := map[plane.Key]bool{}
	exactMember := map[r3.Vector]bool{}
	for _, p := range c.P {
		exactMember[p] = true
	}
	for _, h := range got {
		if !exactMember[h] {
			r.Failf("hull point %v is not an input point", h)
		}
		member[plane.At(h)] = true
	}
	want := plane.Hull(c.P)
	for _, w := range want {
		if !member[plane.At(w)] && (c.Exact || clear(want, w)) {
			r.Failf("corner %v is missing from the hull", plane.At(w))
		}
	}
	if plane.Flat(c.P) {
		if c.Exact && len(c.P) > 0 {
			r.Label("on one line")
			r.NonTrivial()
			for k := range plane.Distinct(c.P) {
				if !member[k] {
					r.Failf("point %v of a set on one line is missing", k)
				}
			}
		}
		return
	}
	r.NonTrivial()
	if len(member) != len(got) {
		r.Failf("a point appears twice on the hull %v", got)
	}
	ext := plane.Extent(c.P)
	n := len(got)
	for i, a := range got {
		b := got[(i+1)%n]
		for _, p := range c.P {
			if ex.Orient2(a, b, p) < 0 {
				cr := math.Abs((b.X-a.X)*(p.Y-a.Y) - (b.Y-a.Y)*(p.X-a.X))
				if c.Exact || cr > 1e-13*ext*ext {
					r.Failf("point %v is outside the hull edge %v -> %v", plane.At(p), plane.At(a), plane.At(b))
				}
			}
		}
	}
	if w := plane.Area2(want); math.Abs(plane.Area2(got)-w) > 1e-9*w {
		r.Failf("hull area %v instead of %v (the hull must wind counter-clockwise once)", plane.Area2(got)/2, w/2)
	}
	if !c.Exact {
		return
	}
	// Points on the boundary but not at corners are kept, in order.
	for _, p := range c.P {
		on := false
		for i, a := range want {
			b := want[(i+1)%len(want)]
			if ex.Orient2(a, b, p) == 0 {
				on = true
			}
		}
		if on && !member[plane.At(p)] {
			r.Failf("point %v lies on the boundary but is missing", plane.At(p))
		}
	}
	if len(want) > 8 {
		r.Label("over 8 corners")
	}
}

// clear tells that corner w sticks out by more than rounding.
func clear(h []r3.Vector, w r3.Vector) bool {
	n := len(h)
	if n < 3 {
		return true
	}
	for i := range h {
		if h[i] == w {
			a, b := h[(i+n-1)%n], h[(i+1)%n]
			cr := math.Abs((b.X-a.X)*(w.Y-a.Y) - (b.Y-a.Y)*(w.X-a.X))
			e := plane.Extent(h)
			return cr > 1e-13*e*e
		}
	}
	return false
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C12",
		Rule:        "planar point sets as for the structure check, also stretched by powers of two in one direction, on one line, single points and duplicates; oracle: exact orientation of every input point against every hull edge, an independently computed exact hull, boundary points kept, one counter-clockwise turn. Non-trivial: not on one line, or a lattice set on one line.",
		Assumptions: []string{"coordinates below 1e28; distinct points further apart than 1e-7", "for non-lattice floats deviations below 1e-13 of the squared extent are rounding"},
		Parts: []pbt.Part{
			pbt.P("small", 180000, 3000000, func(t *rapid.T) plane.Case { return plane.Points(t, 40) }, check),
			pbt.P("stretched", 40000, 600000, func(t *rapid.T) plane.Case { // lattices scaled apart in both directions: turns stay exact
				c := plane.Points(t, 25)
				i, j := rapid.IntRange(0, 40).Draw(t, "x scale"), rapid.IntRange(0, 40).Draw(t, "y scale")
				for k := range c.P {
					c.P[k].X, c.P[k].Y = math.Ldexp(c.P[k].X, i), math.Ldexp(c.P[k].Y, j)
				}
				return c
			}, check),
			pbt.P("large", 6000, 60000, func(t *rapid.T) plane.Case { return plane.Points(t, 300) }, check),
			pbt.P("huge", 480, 4000, func(t *rapid.T) plane.Huge { return plane.DrawHuge(t, 300, 2000) }, func(h plane.Huge, r *pbt.R) { check(h.Case(), r) }),
			pbt.P("vast", 16, 120, func(t *rapid.T) plane.Huge {
				h := plane.DrawHuge(t, 20000, 70000)
				switch h.Shape {
				case "ring", "annulus": // hulls of many corners
					h.N /= 20
				case "fan", "spiral", "deep":
					h.N /= 4
				}
				return h
			}, func(h plane.Huge, r *pbt.R) { check(h.Case(), r) }),
		},
	})
}
