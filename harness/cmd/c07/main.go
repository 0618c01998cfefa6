// C07: the filtered in-sphere predicate never certifies a wrong sign.
package main

import (
	"math"

	"geGoMetry/predicates"
	"geGoMetry/r3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct{ P [5]r3.Vector }

const u = 1.0 / (1 << 53)

func check(c Case, r *pbt.R) {
	a, b, cc, d, e := c.P[0], c.P[1], c.P[2], c.P[3], c.P[4]
	got := predicates.VerifInSphere(a, b, cc, d, e)
	want, perm := ex.InSphereParts(a, b, cc, d, e)
	if math.IsNaN(got) {
		r.Failf("in-sphere of %v is NaN", c.P)
	}
	wf := ex.Float(want)
	switch {
	case got == 0:
		r.Label("undecided")
		if want.Sign() == 0 {
			r.Label("exactly zero")
			r.NonTrivial()
		}
	case got > 0 && want.Sign() <= 0, got < 0 && want.Sign() >= 0:
		r.Failf("in-sphere of %v certified as %v, exactly %v", c.P, got, wf)
	default:
		r.Label("decided")
		r.NonTrivial()
		if math.Abs(wf) < 1e-12*perm {
			r.Label("decided close to zero")
		}
		if math.Abs(got-wf) > 100*u*perm {
			r.Failf("in-sphere of %v: got %v, exactly %v", c.P, got, wf)
		}
	}
	if got == 0 && math.Abs(wf) > 128*u*perm {
		r.Failf("in-sphere of %v is left undecided although it is %v, far above the rounding error %v", c.P, wf, 16*u*perm)
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C07",
		Rule:        "five points as for the plain determinant, many cospherical or within 1e-15..1e-3 of it, or of one plane, with coordinates of unequal magnitudes whose products round, scaled by powers of two from 2^-90 to 2^90; oracle: the exact rational determinant: a non-zero answer has its sign and value, zero only where the exact value is within 128 units of rounding of the permanent. Non-trivial: answered with a sign, or exactly zero.",
		Assumptions: []string{"no overflow or underflow of the fifth-degree products"},
		Parts: []pbt.Part{
			pbt.P("five", 160000, 3000000, func(t *rapid.T) Case { return Case{gen.Five(t, 4096)} }, check),
			pbt.P("coplanar", 240000, 3000000, func(t *rapid.T) Case { return Case{gen.Coplanar(t)} }, check),
			pbt.P("cospherical", 120000, 2000000, func(t *rapid.T) Case {
				// Points of one integer sphere, scaled and shifted so that differences round.
				f := gen.Uniform(t, "f", 0.1, 3)
				o := gen.Box(t, "o", -50, 50)
				v := gen.IntVec(t, "v", 20)
				var c Case
				for i := range c.P {
					w := gen.Symmetric(t, v)
					c.P[i] = r3.Vector{X: o.X + f*w.X, Y: o.Y + f*w.Y, Z: o.Z + f*w.Z}
				}
				return c
			}, check),
		},
	})
}
