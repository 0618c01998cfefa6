// C11: the triangulation depends on the positions in the plane only.
package main

import (
	"fmt"
	"math"
	"sort"

	"geGoMetry/r3"
	tri "geGoMetry/triangulate2"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"
	"verif/plane"

	"pgregory.net/rapid"
)

type Case struct {
	plane.Case
	Order []int     // permutation
	Z     []float64 // other heights
	Shift r3.Vector
	Turn  int // symmetry of the square
	Pow   int // power of two
}

// strange are the stored forms of heights that JSON cannot hold, and two more.
var strange = []float64{math.MaxFloat64, -math.MaxFloat64, 0.5 * math.MaxFloat64, math.Copysign(0, -1), math.SmallestNonzeroFloat64}

func height(z float64) float64 {
	switch z {
	case strange[0]:
		return math.Inf(1)
	case strange[1]:
		return math.Inf(-1)
	case strange[2]:
		return math.NaN()
	}
	return z
}

func canon(p []r3.Vector, ts []int, back func(plane.Key) plane.Key) []string {
	var out []string
	for i := 0; i+2 < len(ts); i += 3 {
		k := []string{fmt.Sprint(back(plane.At(p[ts[i]]))), fmt.Sprint(back(plane.At(p[ts[i+1]]))), fmt.Sprint(back(plane.At(p[ts[i+2]])))}
		sort.Strings(k)
		out = append(out, fmt.Sprint(k))
	}
	sort.Strings(out)
	return out
}

func unique(p []r3.Vector, t *tri.Triangulation, exact bool) bool {
	ext := plane.Extent(p)
	for h, o := range t.Halfedges {
		if o == -1 || o < h {
			continue
		}
		a, b, d := p[t.Triangles[h-h%3]], p[t.Triangles[h-h%3+1]], p[t.Triangles[h-h%3+2]]
		q := p[t.Triangles[o-o%3+(o+2)%3]]
		if !exact && (plane.Sliver(a, b, d, ext) || plane.Sliver(a, b, q, ext) || plane.Sliver(b, d, q, ext) || plane.Sliver(a, d, q, ext)) {
			return false
		}
		s, ok := ex.InCircle(a, b, d, q)
		if !ok || s >= 0 || !exact && ex.InCircleMargin(a, b, d, q) < 1e-9 {
			return false
		}
	}
	return true
}

func check(c Case, r *pbt.R) {
	r.Label(c.Kind)
	p := gen.Roomy(c.P)
	t, err := tri.Triangulate(p)
	for i := range p {
		if p[i] != c.P[i] {
			r.Failf("triangulating changed input point %d from %v to %v", i, c.P[i], p[i])
		}
	}
	id := func(k plane.Key) plane.Key { return k }
	var base []string
	one := false
	if err == nil && len(c.P) > 0 {
		base = canon(c.P, t.Triangles, id)
		one = unique(c.P, t, c.Exact)
		r.NonTrivialIf(len(t.Triangles) > 3)
		if one && len(base) > 1 {
			r.Label("unique triangulation")
		}
	} else {
		r.Label("refused")
	}
	compare := func(what string, q []r3.Vector, back func(plane.Key) plane.Key) {
		t2, err2 := plane.Run(q)
		if (err == nil) != (err2 == nil) {
			r.Failf("%s: error %v instead of %v", what, err2, err)
		}
		if err != nil {
			return
		}
		got := canon(q, t2.Triangles, back)
		if len(got) != len(base) {
			r.Failf("%s: %d triangles instead of %d", what, len(got), len(base))
		}
		if one {
			for i := range got {
				if got[i] != base[i] {
					r.Failf("%s: triangle %s instead of %s", what, got[i], base[i])
				}
			}
		}
	}
	// Heights.
	q := append([]r3.Vector(nil), c.P...)
	for i := range q {
		q[i].Z = height(c.Z[i])
	}
	t2, err2 := plane.Run(q)
	if (err == nil) != (err2 == nil) {
		r.Failf("with other heights: error %v instead of %v", err2, err)
	}
	if err == nil {
		g := canon(q, t2.Triangles, id)
		if fmt.Sprint(g) != fmt.Sprint(base) {
			r.Failf("with other heights: triangles %v instead of %v", g, base)
		}
	}
	// The same call again.
	t3, err3 := plane.Run(c.P)
	if (err == nil) != (err3 == nil) || err == nil && fmt.Sprint(t3.Triangles, t3.Halfedges, t3.ConvexHull) != fmt.Sprint(t.Triangles, t.Halfedges, t.ConvexHull) {
		r.Failf("triangulating twice gives two results")
	}
	// Order.
	if c.Exact || one {
		for i, k := range c.Order {
			q[i] = c.P[k]
		}
		compare("in another order", q, id)
	}
	if c.Exact || one {
		f := math.Ldexp(1, c.Pow)
		for i, v := range c.P {
			x, y := v.X+c.Shift.X, v.Y+c.Shift.Y
			if c.Turn&1 != 0 {
				x = -x
			}
			if c.Turn&2 != 0 {
				y = -y
			}
			if c.Turn&4 != 0 {
				x, y = y, x
			}
			q[i] = r3.Vector{X: x * f, Y: y * f, Z: v.Z}
		}
		compare("moved", q, func(k plane.Key) plane.Key {
			x, y := k[0]/f, k[1]/f
			if c.Turn&4 != 0 {
				x, y = y, x
			}
			if c.Turn&2 != 0 {
				y = -y
			}
			if c.Turn&1 != 0 {
				x = -x
			}
			return plane.Key{x - c.Shift.X + 0, y - c.Shift.Y + 0}
		})
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C11",
		Rule:        "planar point sets as for the structure check, each with a permutation, other heights (also infinite ones and NaN) and a motion (integer shift, symmetry of the square, power-of-two scale, one in eight from 2^-20 to 2^50); relation: same acceptance and number of triangles, the same triangles where no four neighbours are cocircular, identical result for other heights and for a repeated call, input untouched. Non-trivial: more than one triangle.",
		Assumptions: []string{"coordinates below 1e28; distinct points further apart than 1e-7", "shifts are applied to lattice sets, where they are exact"},
		Parts: []pbt.Part{
			pbt.P("moves", 150000, 1200000, func(t *rapid.T) Case {
				c := Case{Case: plane.Points(t, 40)}
				idx := make([]int, len(c.P))
				for i := range idx {
					idx[i] = i
					c.Z = append(c.Z, gen.Scalar(t, "height", -2, 5))
				}
				if len(idx) > 0 {
					c.Order = rapid.Permutation(idx).Draw(t, "order")
				}
				c.Shift = gen.IntVec(t, "shift", 1000)
				c.Turn = rapid.IntRange(0, 7).Draw(t, "turn")
				c.Pow = rapid.IntRange(-3, 6).Draw(t, "pow")
				if rapid.IntRange(0, 7).Draw(t, "far scale") == 7 {
					c.Pow = rapid.IntRange(-20, 50).Draw(t, "pow")
				}
				if rapid.IntRange(0, 7).Draw(t, "strange heights") == 7 {
					for i := range c.Z {
						if k := rapid.IntRange(0, 5).Draw(t, "height"); k < len(strange) {
							c.Z[i] = strange[k]
						}
					}
				}
				for _, v := range c.P { // keep the shifted coordinates exact
					if v.X != math.Trunc(v.X) || v.Y != math.Trunc(v.Y) || math.Abs(v.X)+math.Abs(v.Y) > 1e9 || !c.Exact {
						c.Shift, c.Pow = r3.Vector{}, max(c.Pow, -3)
					}
					if math.Abs(v.X)+math.Abs(v.Y) > 1e12 {
						c.Pow = min(c.Pow, 6)
					}
				}
				if !c.Exact { // and fractions further apart than duplicates
					c.Pow = max(c.Pow, 0)
				}
				return c
			}, check),
			pbt.P("huge", 120, 3000, func(t *rapid.T) plane.Huge { return plane.DrawHuge(t, 200, 2500) }, func(h plane.Huge, r *pbt.R) {
				s := gen.Rand(^h.Seed)
				c := Case{Case: h.Case(), Turn: int(s.Next() % 8), Pow: int(s.Next() % 4)}
				for i := range c.P {
					c.Z = append(c.Z, 5*s.Float())
					c.Order = append(c.Order, i)
				}
				for i := range c.Order {
					j := int(s.Next() % uint64(i+1))
					c.Order[i], c.Order[j] = c.Order[j], c.Order[i]
				}
				check(c, r)
			}),
		},
	})
}
