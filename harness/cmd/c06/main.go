// C06: the in-sphere determinant and the orientation determinant agree with exact arithmetic.
package main

import (
	"math"

	"geGoMetry/predicates"
	"geGoMetry/r3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct{ P [5]r3.Vector }

func small(c Case, m float64) bool {
	for _, v := range c.P {
		for _, x := range []float64{v.X, v.Y, v.Z} {
			if x != math.Trunc(x) || math.Abs(x) > m {
				return false
			}
		}
	}
	return true
}

func inTetra(p [5]r3.Vector) bool {
	o := ex.Orient3Sign(p[0], p[1], p[2], p[3])
	return ex.Orient3Sign(p[4], p[1], p[2], p[3]) == o && ex.Orient3Sign(p[0], p[4], p[2], p[3]) == o &&
		ex.Orient3Sign(p[0], p[1], p[4], p[3]) == o && ex.Orient3Sign(p[0], p[1], p[2], p[4]) == o
}

const u = 1.0 / (1 << 53)

func check(c Case, r *pbt.R) {
	a, b, cc, d, e := c.P[0], c.P[1], c.P[2], c.P[3], c.P[4]
	got := predicates.InSphereFast(a, b, cc, d, e)
	o := predicates.VerifOrient3D(a, b, cc, d)
	want, perm := ex.InSphereParts(a, b, cc, d, e)
	wantO, permO := ex.Orient3Parts(a, b, cc, d)
	wf, of := ex.Float(want), ex.Float(wantO)

	if small(c, 128) {
		r.Label("integer, exact")
		if got != wf {
			r.Failf("in-sphere determinant of %v: got %v, exactly %v", c.P, got, wf)
		}
		if o != of {
			r.Failf("orientation determinant of %v: got %v, exactly %v", c.P[:4], o, of)
		}
		r.NonTrivialIf(wantO.Sign() != 0)
	}
	if math.Abs(got-wf) > 100*u*perm {
		r.Failf("in-sphere determinant of %v: got %v, exactly %v, allowed error %v", c.P, got, wf, 100*u*perm)
	}
	if math.Abs(o-of) > 40*u*permO {
		r.Failf("orientation determinant of %v: got %v, exactly %v, allowed error %v", c.P[:4], o, of, 40*u*permO)
	}
	if wantO.Sign() == 0 {
		r.Label("flat")
		return
	}
	in, ok := ex.InsideSphere(a, b, cc, d, e)
	if !ok {
		r.Failf("oracle: flat")
	}
	r.Label("inside %+d orientation %+d", in, wantO.Sign())
	// The oracle's own sanity: a point of the tetrahedron is inside the sphere.
	if inTetra(c.P) && in < 0 {
		r.Failf("oracle: inside the tetrahedron but outside its sphere")
	}
	if math.Abs(wf) > 100*u*perm && math.Abs(of) > 40*u*permO {
		r.NonTrivial()
		if (got < 0) != (in*wantO.Sign() > 0) || (o > 0) != (wantO.Sign() > 0) {
			r.Failf("%v: determinants %v and %v, but e is on side %+d of the sphere", c.P, got, o, in)
		}
	}
	// Exchanging two of the four points turns the orientation and the in-sphere sign around.
	sw := predicates.InSphereFast(b, a, cc, d, e)
	if math.Abs(sw+got) > 200*u*perm {
		r.Failf("exchanging two points of %v: %v became %v", c.P, got, sw)
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C06",
		Rule:        "five points: small integers up to 128 (determinants compared exactly), integer points of a common sphere and one step off it, uniform, far clusters, nearly cospherical, nearly flat and mixed magnitudes, scaled by powers of two from 2^-90 to 2^90; oracle: rational determinants, forward error bound 100 units of rounding of the permanent, side of the sphere decided exactly. Non-trivial: non-flat with the exact value above the rounding bound, or integer and non-flat.",
		Assumptions: []string{"no overflow or underflow of the fifth-degree products", "for floats the sign is only required above the forward error bound of the plain formula"},
		Parts: []pbt.Part{
			pbt.P("five", 240000, 3000000, func(t *rapid.T) Case { return Case{gen.Five(t, 128)} }, check),
			pbt.P("coplanar", 120000, 1000000, func(t *rapid.T) Case { return Case{gen.Coplanar(t)} }, check),
		},
	})
}
