// C29: points of a curve.
package main

import (
	"math"
	"math/big"

	"nurbs"
	"verif/gen"
	"verif/pbt"
	"verif/spline"

	"pgregory.net/rapid"
)

type Case struct {
	K     spline.Knots
	P     [][3]float64
	Other [3]float64 // replaces a control point without influence
}

func check(c Case, r *pbt.R) {
	k := c.K
	r.NonTrivialIf(k.P >= 2)
	r.Label("%s", k.Label())
	n, span := k.N(), k.Span()
	knots := append([]int(nil), k.U...)
	got := nurbs.VerifCurve(n, k.P, knots, c.P, k.T)
	x := new(big.Rat).SetFloat64(k.T)
	basis := k.Basis(span, k.P)
	for d := 0; d < 3; d++ {
		sum, scale, most := new(big.Rat), 0.0, 0.0
		for i := 0; i <= n; i++ {
			b := basis[i].At(0, x)
			term := new(big.Rat).Mul(b, new(big.Rat).SetFloat64(c.P[i][d]))
			sum.Add(sum, term)
			f, _ := term.Float64()
			scale += math.Abs(f)
			most = math.Max(most, math.Abs(c.P[i][d]))
		}
		want, _ := sum.Float64()
		if !(math.Abs(got[d]-want) <= 2e-14*float64(k.P+1)*scale+1e-300*most) {
			r.Failf("point at %v is %v, coordinate %d should be %v", k.T, got, d, want)
		}
	}
	// Control points of other spans have no influence at all.
	for i := range c.P {
		if i < span-k.P || i > span {
			moved := append([][3]float64(nil), c.P...)
			moved[i] = c.Other
			if again := nurbs.VerifCurve(n, k.P, knots, moved, k.T); again != got {
				r.Failf("moving control point %d moves the point at %v from %v to %v", i, k.T, got, again)
			}
			break
		}
	}
	for j := range knots {
		if knots[j] != k.U[j] {
			r.Failf("knots changed to %v", knots)
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C29",
		Rule:        "knot vectors and parameters as for the basis functions, control points with coordinates zero, small integers, fractions, uniform or log-uniform in 1e-20..1e20; oracle: the sum of exact basis functions times control points in rational arithmetic, within rounding of the terms; control points outside the span replaced without effect. Non-trivial: degree 2 or more.",
		Assumptions: []string{"non-decreasing knots, a domain that is not empty, a parameter within it, as many control points as the knots ask for"},
		Parts:       []pbt.Part{pbt.P("curve", 160000, 800000, draw(spline.Draw), check), pbt.P("high-degree", 700, 15000, draw(spline.DrawHigh), check)},
	})
}

func draw(knots func(*rapid.T) spline.Knots) func(*rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{K: knots(t)}
		for i := 0; i <= c.K.N(); i++ {
			v := gen.Vec(t, "p", -20, 20)
			c.P = append(c.P, [3]float64{v.X, v.Y, v.Z})
		}
		v := gen.Vec(t, "other", -3, 3)
		c.Other = [3]float64{v.X, v.Y, v.Z}
		return c
	}
}
