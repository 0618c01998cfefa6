// C05: signed distance from a point to a plane.
package main

import (
	"math"

	"geGoMetry/r3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct {
	N    r3.Vector // direction of the normal; normalised by the oracle
	O    r3.Vector // a point of the plane
	U, V float64   // a second point of the plane is O + U*e1 + V*e2
	H    float64   // height of the probe above that point
}

func norm(v r3.Vector) float64 { return math.Sqrt(v.X*v.X + v.Y*v.Y + v.Z*v.Z) }
func cross(a, b r3.Vector) r3.Vector {
	return r3.Vector{X: a.Y*b.Z - a.Z*b.Y, Y: a.Z*b.X - a.X*b.Z, Z: a.X*b.Y - a.Y*b.X}
}
func unit(v r3.Vector) r3.Vector {
	l := norm(v)
	return r3.Vector{X: v.X / l, Y: v.Y / l, Z: v.Z / l}
}
func axpy(a float64, v, w r3.Vector) r3.Vector {
	return r3.Vector{X: a*v.X + w.X, Y: a*v.Y + w.Y, Z: a*v.Z + w.Z}
}

func check(c Case, r *pbt.R) {
	n := unit(c.N)
	off := -ex.Float(ex.Vec(n).Dot(ex.Vec(c.O)))
	plane := r3.Plane{Normal: n, Distance: off}
	e1 := cross(n, r3.Vector{X: 1})
	if norm(e1) < 0.5 {
		e1 = cross(n, r3.Vector{Y: 1})
	}
	e1 = unit(e1)
	e2 := cross(n, e1)
	q := axpy(c.U, e1, axpy(c.V, e2, c.O))
	p := axpy(c.H, n, q)
	got := p.CalculateDistanceToPlane(plane)
	tol := 1e-14 * (norm(c.O) + math.Abs(c.U) + math.Abs(c.V) + math.Abs(c.H))
	if !(math.Abs(got-c.H) <= tol) {
		r.Failf("point %v lies %v above the plane with unit normal %v through %v (offset %v), reported %v", p, c.H, n, c.O, off, got)
	}
	if made := r3.VerifNewPlane(n, c.O); made.Normal != n || !(math.Abs(p.CalculateDistanceToPlane(made)-c.H) <= tol) {
		r.Failf("plane through %v with unit normal %v is built as %v: distance of %v is %v, want %v", c.O, n, made, p, p.CalculateDistanceToPlane(made), c.H)
	}
	if c.H == 0 {
		r.Label("on the plane")
	}
	if c.H < 0 {
		r.Label("below")
	}
	if c.O == (r3.Vector{}) {
		r.Label("through the origin")
	}
	r.NonTrivialIf(c.O != (r3.Vector{}))
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C05",
		Rule:        "planes by unit normal and a point up to 1e6 from the origin, probes built at a chosen height above a chosen point of the plane, all of these 2^-100..2^100 times as large; oracle: the chosen height, within 1e-14 of the magnitudes involved. Non-trivial: plane point away from the origin.",
		Assumptions: []string{"unit normals; points x of the plane satisfy n.x + offset = 0, as the package's own constructor sets it up"},
		Parts: []pbt.Part{pbt.P("height", 800000, 3000000, func(t *rapid.T) Case {
			c := Case{N: gen.Vec(t, "n", -2, 2), O: gen.Vec(t, "o", -3, 6), U: gen.Scalar(t, "u", -3, 4), V: gen.Scalar(t, "v", -3, 4), H: gen.Scalar(t, "h", -3, 5)}
			if c.N == (r3.Vector{}) {
				c.N = r3.Vector{Z: 1}
			}
			f := gen.Power(t, -100, 100) // everything larger or smaller
			c.O, c.U, c.V, c.H = c.O.Scaled(f), c.U*f, c.V*f, c.H*f
			return c
		}, check)},
	})
}
