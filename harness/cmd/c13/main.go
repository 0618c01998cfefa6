// C13: validation accepts every triangulation the library makes and rejects damaged ones.
package main

import (
	"math"

	"geGoMetry/r3"
	tri "geGoMetry/triangulate2"
	"verif/pbt"
	"verif/plane"

	"pgregory.net/rapid"
)

type Case struct {
	plane.Case
	Damage string
	At     int
	By     int
}

// Large is a huge set with a damage.
type Large struct {
	plane.Huge
	Damage string
	At, By int
}

var damages = []string{"edge", "cross", "drop", "double", "flip", "hull", "spike"}

func check(c Case, r *pbt.R) {
	r.Label(c.Kind)
	t, err := plane.Run(c.P)
	if err != nil || len(t.Triangles) == 0 {
		r.Label("refused")
		return
	}
	if e := t.Validate(); e != nil {
		r.Failf("a fresh triangulation of %d points is rejected: %v", len(c.P), e)
	}
	r.NonTrivial()
	cp := func() *tri.Triangulation {
		return &tri.Triangulation{
			Vectors:    append([]r3.Vector(nil), t.Vectors...),
			ConvexHull: append([]r3.Vector(nil), t.ConvexHull...),
			Triangles:  append([]int(nil), t.Triangles...),
			Halfedges:  append([]int(nil), t.Halfedges...),
		}
	}
	d := cp()
	ext := plane.Extent(c.P)
	size := math.Max(1, ext*ext)
	area := func(i int) float64 {
		return math.Abs(plane.Area2([]r3.Vector{t.Vectors[t.Triangles[i]], t.Vectors[t.Triangles[i+1]], t.Vectors[t.Triangles[i+2]]}))
	}
	switch c.Damage {
	case "edge": // one half-edge points elsewhere
		h := c.At % len(d.Halfedges)
		to := c.By%(len(d.Halfedges)+1) - 1
		if to == d.Halfedges[h] {
			return
		}
		d.Halfedges[h] = to
		// A half-edge that becomes glued to itself, or an edge cut on one side only, is still inconsistent,
		// unless nothing refers to it: a boundary edge glued to itself.
		if to == h && t.Halfedges[h] == -1 {
			return
		}
	case "cross": // two glued pairs exchange their partners on one side
		h := c.At % len(d.Halfedges)
		g := c.By % len(d.Halfedges)
		if d.Halfedges[h] == d.Halfedges[g] || d.Halfedges[h] == g {
			return
		}
		d.Halfedges[h], d.Halfedges[g] = d.Halfedges[g], d.Halfedges[h]
	case "drop": // a triangle at the end is missing
		k := len(d.Triangles) - 3
		if area(k) < 1e-6*size {
			return
		}
		for _, o := range d.Halfedges[k:] {
			if o >= 0 && o < k {
				d.Halfedges[o] = -1
			}
		}
		d.Triangles, d.Halfedges = d.Triangles[:k], d.Halfedges[:k]
	case "double": // a triangle is replaced by a copy of another of different size
		k, o := c.At%(len(d.Triangles)/3)*3, c.By%(len(d.Triangles)/3)*3
		if math.Abs(area(k)-area(o)) < 1e-6*size {
			return
		}
		copy(d.Triangles[k:k+3], d.Triangles[o:o+3])
	case "flip": // a triangle winds the wrong way
		k := c.At % (len(d.Triangles) / 3) * 3
		if area(k) < 1e-6*size {
			return
		}
		d.Triangles[k], d.Triangles[k+1] = d.Triangles[k+1], d.Triangles[k]
	case "hull": // the hull misses a corner
		k := c.At % len(d.ConvexHull)
		n := len(d.ConvexHull)
		a, b, e := d.ConvexHull[(k+n-1)%n], d.ConvexHull[k], d.ConvexHull[(k+1)%n]
		cut := math.Abs(plane.Area2([]r3.Vector{a, b, e}))
		// A needle loses a tip: hardly any area, but length.
		short := math.Hypot(a.X-b.X, a.Y-b.Y) + math.Hypot(b.X-e.X, b.Y-e.Y) - math.Hypot(a.X-e.X, a.Y-e.Y)
		if n < 4 || cut < 1e-6*size && short < 1e-6*math.Max(1, ext) {
			return
		}
		if cut < 1e-6*size {
			r.Label("only the length tells")
		}
		d.ConvexHull = append(d.ConvexHull[:k], d.ConvexHull[k+1:]...)
	case "spike": // the hull goes to another point and back
		k := c.At % len(d.ConvexHull)
		a, b := d.ConvexHull[k], t.Vectors[c.By%len(t.Vectors)]
		if math.Hypot(a.X-b.X, a.Y-b.Y) < 1e-6*math.Max(1, ext) {
			return
		}
		d.ConvexHull = append(append(append([]r3.Vector(nil), d.ConvexHull[:k+1]...), b, a), d.ConvexHull[k+1:]...)
	}
	r.Label("damage: " + c.Damage)
	e, panicked := error(nil), false
	_, panicked = pbt.Try(func() { e = d.Validate() })
	if !panicked && e == nil {
		r.Failf("a triangulation of %d points with damage %q (%d, %d) is accepted", len(c.P), c.Damage, c.At, c.By)
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C13",
		Rule:        "triangulations of planar point sets as for the structure check, each also with one damage: a half-edge redirected, two opposites exchanged, a triangle dropped, doubled or turned over, a hull corner removed, a hull that goes to another point and back (area changes above 1e-6 of the squared extent, or length changes above 1e-6 of it; one set in twelve as thin as a needle); oracle: fresh results are accepted, damaged ones rejected. Non-trivial: at least one triangle.",
		Assumptions: []string{"coordinates below 1e28; distinct points further apart than 1e-7", "damage that changes no area, perimeter or gluing is not claimed"},
		Parts: []pbt.Part{
			pbt.P("damage", 400000, 2000000, func(t *rapid.T) Case {
				c := Case{
					Case:   plane.Points(t, 30),
					Damage: rapid.SampledFrom(damages).Draw(t, "damage"),
					At:     rapid.IntRange(0, 500).Draw(t, "at"),
					By:     rapid.IntRange(0, 500).Draw(t, "by"),
				}
				if rapid.IntRange(0, 11).Draw(t, "needle") == 11 {
					// Flat along x or y, exactly so that ties stay ties.
					f := math.Ldexp(1, -rapid.IntRange(20, 45).Draw(t, "thin"))
					swap := rapid.Bool().Draw(t, "upright")
					var kept []r3.Vector
				next:
					for _, p := range c.P {
						for _, q := range kept {
							if math.Abs(p.X-q.X) < 1e-6 {
								continue next // distinct points stay apart
							}
						}
						kept = append(kept, p)
					}
					c.P = kept
					for i, p := range c.P {
						c.P[i].Y *= f
						if swap {
							c.P[i].X, c.P[i].Y = p.Y*f, p.X
						}
					}
					c.Kind, c.Exact = "needle", false
				}
				return c
			}, check),
			pbt.P("huge", 400, 4000, func(t *rapid.T) Large {
				return Large{plane.DrawHuge(t, 200, 4000), rapid.SampledFrom(damages).Draw(t, "damage"), rapid.IntRange(0, 20000).Draw(t, "at"), rapid.IntRange(0, 20000).Draw(t, "by")}
			}, func(l Large, r *pbt.R) { check(Case{l.Case(), l.Damage, l.At, l.By}, r) }),
		},
	})
}
