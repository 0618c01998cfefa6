// C15: enclosing tetrahedra contain every point.
package main

import (
	mesh "geGoMetry/meshing"
	"geGoMetry/r3"
	tri3 "geGoMetry/triangulate3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct{ P []r3.Vector }

// Many is a large cloud somewhere.
type Many struct {
	gen.Scatter
	O r3.Vector
}

func (m Many) Points() []r3.Vector {
	p := m.Scatter.Points()
	for i := range p {
		p[i] = r3.Add(p[i], m.O)
	}
	return p
}

// inside tells, exactly, whether p is in the closed tetrahedron.
func inside(v []r3.Vector, p r3.Vector) bool {
	for i := range v {
		a, b, c, d := v[(i+1)%4], v[(i+2)%4], v[(i+3)%4], v[i]
		if ex.Orient3Sign(a, b, c, d)*ex.Orient3Sign(a, b, c, p) < 0 {
			return false
		}
	}
	return true
}

func judge(what string, v []r3.Vector, p []r3.Vector, r *pbt.R) {
	for _, q := range v {
		if !(q.X-q.X == 0 && q.Y-q.Y == 0 && q.Z-q.Z == 0) {
			r.Failf("%s: corner %v", what, q)
		}
	}
	if ex.Orient3Sign(v[0], v[1], v[2], v[3]) == 0 {
		r.Failf("%s: the tetrahedron %v around %d points is flat", what, v, len(p))
	}
	for _, q := range p {
		if !inside(v, q) {
			r.Failf("%s: point %v is outside the enclosing tetrahedron %v", what, q, v)
		}
	}
}

func check(c Case, r *pbt.R) {
	r.NonTrivial()
	if len(c.P) > 20 {
		r.Label("over 20 points")
	} else {
		r.Label("%d points or more", len(c.P)/5*5)
	}
	in := append([]r3.Vector(nil), c.P...)
	m := tri3.VerifEnglobe(in)
	if len(m.Vertices) != 4 {
		r.Failf("enclosing mesh with %d corners", len(m.Vertices))
	}
	judge("enclosing mesh", m.Vertices, c.P, r)
	// Its faces are the four triangles of the corners.
	if len(m.Indices) != 12 {
		r.Failf("enclosing mesh with %d indices", len(m.Indices))
	}
	seen := map[int]bool{}
	for i := 0; i < 12; i += 3 {
		mask := 0
		for _, k := range m.Indices[i : i+3] {
			if k > 3 {
				r.Failf("enclosing mesh has index %d", k)
			}
			mask |= 1 << k
		}
		if seen[mask] || mask == 1 || mask == 3 {
			r.Failf("enclosing mesh has faces %v", m.Indices)
		}
		seen[mask] = true
		n := 0
		for b := 0; b < 4; b++ {
			n += mask >> b & 1
		}
		if n != 3 {
			r.Failf("enclosing mesh has face %v", m.Indices[i:i+3])
		}
	}
	ext, t := mesh.VerifEnglobe(in)
	if len(ext) != len(c.P)+4 {
		r.Failf("meshing: %d points became %d", len(c.P), len(ext))
	}
	v := make([]r3.Vector, 4)
	corner := map[int]bool{}
	for i, k := range t {
		if k < 0 || k >= len(ext) || corner[k] {
			r.Failf("meshing: corners %v", t)
		}
		corner[k] = true
		v[i] = ext[k]
	}
	rest := []r3.Vector{}
	for i, q := range ext {
		if !corner[i] {
			rest = append(rest, q)
		}
	}
	for i := range rest {
		if rest[i] != c.P[i] {
			r.Failf("meshing: point %d is %v after enclosing, was %v", i, rest[i], c.P[i])
		}
	}
	judge("meshing", v, c.P, r)
	for i := range in {
		if in[i] != c.P[i] {
			r.Failf("the input changed at %d", i)
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C15",
		Rule:        "1 to 20 points in space: lattice ranges, far from the origin, all negative, in an axis plane, elongated, floats of several magnitudes within and between points, scaled by powers of two from 2^-60 to 2^60, single and repeated points, and seeded clouds of 60 to 600 and of 20000 to 70000; oracle: exact orientation signs of every point against the four faces of both enclosing tetrahedra, non-flatness, points kept. Every case is non-trivial.",
		Assumptions: []string{"sums and differences of coordinates stay in range", "at least one point"},
		Parts: []pbt.Part{
			pbt.P("enclose", 400000, 2000000, func(t *rapid.T) Case { p, _ := gen.Cloud(t, 1, 20); return Case{p} }, check),
			pbt.P("many", 4000, 40000, func(t *rapid.T) Many { return Many{gen.Scatter{}.Draw(t, 60, 600), gen.Box(t, "o", -1e4, 1e4)} }, func(c Many, r *pbt.R) { check(Case{c.Points()}, r) }),
			pbt.P("vast", 16, 200, func(t *rapid.T) Many { return Many{gen.Scatter{}.Draw(t, 20000, 70000), gen.Box(t, "o", -1e4, 1e4)} }, func(c Many, r *pbt.R) { check(Case{c.Points()}, r) }),
		},
	})
}
