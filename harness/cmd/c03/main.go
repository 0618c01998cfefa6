// C03: linear interpolation between two points.
package main

import (
	"math"
	"math/big"

	"geGoMetry/r3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

const u = 1.0 / (1 << 53)

type Case struct {
	A, B r3.Vector
	T    float64
}

func comps(v r3.Vector) [3]float64 { return [3]float64{v.X, v.Y, v.Z} }

// lerp checks got = a(1-t) + bt.
func lerp(r *pbt.R, what string, a, b r3.Vector, t float64, got r3.Vector) {
	g, ca, cb := comps(got), comps(a), comps(b)
	et := ex.F(t)
	s := ex.Sub(ex.F(1), et)
	for i := range g {
		if math.IsNaN(g[i]) || math.IsInf(g[i], 0) {
			r.Failf("%s gives %v", what, got)
		}
		x, y := ex.Mul(ex.F(ca[i]), s), ex.Mul(ex.F(cb[i]), et)
		// 1-t is rounded before it is used, hence the extra term for |a|
		mag := new(big.Rat).Add(ex.Abs(ex.F(ca[i])), ex.Abs(y))
		if ex.Abs(ex.Sub(ex.F(g[i]), ex.Add(x, y))).Cmp(ex.Mul(mag, ex.F(16*u))) > 0 {
			r.Failf("%s: component %d is %v, want %v", what, i, g[i], ex.Float(ex.Add(x, y)))
		}
		// between the end points
		lo, hi := math.Min(ca[i], cb[i]), math.Max(ca[i], cb[i])
		slack := 16 * u * math.Max(math.Abs(lo), math.Abs(hi))
		if g[i] < lo-slack || g[i] > hi+slack {
			r.Failf("%s: component %d is %v, outside [%v, %v]", what, i, g[i], lo, hi)
		}
	}
}

func check(c Case, r *pbt.R) {
	a, b := c.A, c.B
	got := r3.Interpolate(&a, &b, c.T)
	if a != c.A || b != c.B {
		r.Failf("Interpolate changed an end point")
	}
	lerp(r, "Interpolate", c.A, c.B, c.T, got)
	// The other form weights its receiver with the factor: (1-f) of the way towards b is at factor f.
	lerp(r, "GetInterpolationVector", c.B, c.A, c.T, c.A.GetInterpolationVector(c.B, c.T))
	if g := r3.Interpolate(&a, &b, 0); g != c.A {
		r.Failf("Interpolate at 0 is %v, not the first point %v", g, c.A)
	}
	if g := r3.Interpolate(&a, &b, 1); g != c.B {
		r.Failf("Interpolate at 1 is %v, not the second point %v", g, c.B)
	}
	if g := c.A.GetInterpolationVector(c.B, 1); g != c.A {
		r.Failf("GetInterpolationVector at 1 is %v, not the receiver %v", g, c.A)
	}
	if g := c.A.GetInterpolationVector(c.B, 0); g != c.B {
		r.Failf("GetInterpolationVector at 0 is %v, not the argument %v", g, c.B)
	}
	same := c.A
	if g := r3.Interpolate(&same, &same, c.T); same != c.A {
		r.Failf("Interpolate changed its aliased argument")
	} else {
		lerp(r, "Interpolate of a point with itself", c.A, c.A, c.T, g)
	}
	r.NonTrivialIf(c.A != c.B && c.T > 0 && c.T < 1)
	if c.T == 0 || c.T == 1 {
		r.Label("at an end")
	}
	if c.T != 0 && c.T < 1e-6 || c.T != 1 && c.T > 1-1e-6 {
		r.Label("next to an end")
	}
	if c.A == c.B {
		r.Label("equal points")
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C03",
		Rule:        "two points (components zero, small integers, fractions, uniform or log-uniform in 1e-30..1e30) and a parameter in [0,1] (ends, simple fractions, uniform, within 1e-60 of the first end and 1e-16 of the second); oracle: exact rational a(1-t)+bt within 16 units of rounding, exact end points. Non-trivial: distinct points and 0<t<1.",
		Assumptions: []string{"finite components, parameter in [0,1]"},
		Parts: []pbt.Part{pbt.P("lerp", 480000, 4000000, func(t *rapid.T) Case {
			c := Case{A: gen.Vec(t, "a", -30, 30)}
			if rapid.IntRange(0, 15).Draw(t, "same") == 0 {
				c.B = c.A
			} else {
				c.B = gen.Vec(t, "b", -30, 30)
			}
			switch rapid.IntRange(0, 5).Draw(t, "t.kind") {
			case 0:
				c.T = rapid.SampledFrom([]float64{0, 1, 0.5, 0.25, 0.75, 1.0 / 3, 0.1, 0.9}).Draw(t, "t")
			case 1:
				c.T = math.Abs(gen.LogUniform(t, "t", -12, -1))
				if rapid.IntRange(0, 3).Draw(t, "tiny") == 0 {
					c.T = math.Abs(gen.LogUniform(t, "t", -60, -12))
				}
			case 2:
				c.T = 1 - math.Abs(gen.LogUniform(t, "t", -16, -1))
			default:
				c.T = gen.Uniform(t, "t", 0, 1)
			}
			return c
		}, check)},
	})
}
