// C02: normalising yields the unit vector of the same direction, and the zero vector for zero.
package main

import (
	"math"

	"geGoMetry/r3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

const u = 1.0 / (1 << 53)

type Case struct{ V r3.Vector }

func bad(x float64) bool { return math.IsNaN(x) || math.IsInf(x, 0) }

func unit(r *pbt.R, what string, v, n r3.Vector) {
	if bad(n.X) || bad(n.Y) || bad(n.Z) {
		r.Failf("%s(%v) = %v", what, v, n)
	}
	ev, en := ex.Vec(v), ex.Vec(n)
	one := ex.F(1)
	if ex.Abs(ex.Sub(en.Dot(en), one)).Cmp(ex.F(40*u)) > 0 {
		r.Failf("%s(%v) = %v is not of unit length", what, v, n)
	}
	// Component i must be v_i/|v|: same sign, and n_i^2 |v|^2 = v_i^2 within rounding.
	vv := ev.Dot(ev)
	for i := range ev {
		if ev[i].Sign() != en[i].Sign() {
			r.Failf("%s(%v) = %v points elsewhere", what, v, n)
		}
		l, w := ex.Mul(ex.Mul(en[i], en[i]), vv), ex.Mul(ev[i], ev[i])
		if ex.Abs(ex.Sub(l, w)).Cmp(ex.Mul(w, ex.F(60*u))) > 0 {
			r.Failf("%s(%v) = %v points elsewhere", what, v, n)
		}
	}
	if !n.IsUnit() {
		r.Failf("%s(%v) = %v is not recognised as a unit vector", what, v, n)
	}
}

func check(c Case, r *pbt.R) {
	v := c.V
	n := r3.Normalize(v)
	if v != c.V {
		r.Failf("Normalize changed its argument to %v", v)
	}
	w := c.V
	p := w.Normalize()
	if p != &w {
		r.Failf("in-place Normalize returns another vector than its receiver")
	}
	if c.V == (r3.Vector{}) {
		r.Label("zero")
		if n != (r3.Vector{}) {
			r.Failf("Normalize(0) = %v", n)
		}
		if w != (r3.Vector{}) {
			r.Failf("in-place normalisation of 0 gives %v", w)
		}
		if n.IsUnit() {
			r.Failf("0 is recognised as a unit vector")
		}
		return
	}
	unit(r, "Normalize", c.V, n)
	unit(r, "in-place Normalize", c.V, w)
	r.NonTrivial()
	if math.Abs(c.V.Norm()-1) < 1e-3 {
		r.Label("already near unit length")
	}
}

// UnitCase is a vector whose squared length is known to be inside or outside the tolerance of IsUnit.
type UnitCase struct {
	V     r3.Vector
	Scale float64
}

func checkUnit(c UnitCase, r *pbt.R) {
	v := r3.Vector{X: c.V.X * c.Scale, Y: c.V.Y * c.Scale, Z: c.V.Z * c.Scale}
	ev := ex.Vec(v)
	d := math.Abs(ex.Float(ex.Sub(ev.Dot(ev), ex.F(1))))
	got := v.IsUnit()
	switch {
	case d <= 1e-14:
		r.Label("unit")
		r.NonTrivial()
		if !got {
			r.Failf("%v differs from unit length by %g only and is not recognised", v, d)
		}
	case d >= 1e-12:
		if d < 1e-3 {
			r.Label("nearly unit")
			r.NonTrivial()
		}
		if got {
			r.Failf("%v has squared length 1%+g and is recognised as a unit vector", v, d)
		}
	default:
		r.Label("inside the grey zone")
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C02",
		Rule:        "vectors with components zero, small integers, fractions, uniform or log-uniform in 1e-150..1e150; and near-unit vectors scaled by 1+d for d around the tolerance of the unit test. Oracle: exact rational comparison of n_i^2|v|^2 with v_i^2 and of |n|^2 with 1. Non-trivial: non-zero vector (first part), squared length within 1e-3 of one but decided (second part).",
		Assumptions: []string{"components whose squares neither overflow nor underflow", "squared lengths 1e-14..1e-12 away from 1 are left open for the unit test"},
		Parts: []pbt.Part{
			pbt.P("normalize", 480000, 4000000, func(t *rapid.T) Case {
				if rapid.IntRange(0, 40).Draw(t, "zero") == 1 {
					return Case{}
				}
				hi := rapid.SampledFrom([]int{3, 3, 20, 150}).Draw(t, "hi")
				v := gen.Vec(t, "v", -hi, hi)
				if rapid.IntRange(0, 7).Draw(t, "near1") == 0 && v != (r3.Vector{}) {
					l := math.Sqrt(v.X*v.X + v.Y*v.Y + v.Z*v.Z)
					e := 1 + gen.LogUniform(t, "e", -15, -1)
					v = r3.Vector{X: v.X / l * e, Y: v.Y / l * e, Z: v.Z / l * e}
				}
				m := math.Max(math.Abs(v.X), math.Max(math.Abs(v.Y), math.Abs(v.Z)))
				// keep the ratio of components clear of underflow in the exactness argument
				f := func(x float64) float64 {
					if math.Abs(x) < m*1e-140 {
						return 0
					}
					return x
				}
				return Case{r3.Vector{X: f(v.X), Y: f(v.Y), Z: f(v.Z)}}
			}, check),
			pbt.P("isunit", 160000, 1000000, func(t *rapid.T) UnitCase {
				v := gen.Box(t, "v", -1, 1)
				switch rapid.IntRange(0, 3).Draw(t, "shape") {
				case 0:
					v = rapid.SampledFrom([]r3.Vector{{X: 1}, {Y: -1}, {Z: 1}, {X: 0.6, Y: 0.8}, {X: -0.48, Y: 0.6, Z: 0.64}}).Draw(t, "axis")
				}
				l := math.Sqrt(v.X*v.X + v.Y*v.Y + v.Z*v.Z)
				if l < 0.01 {
					v, l = r3.Vector{X: 1}, 1
				}
				v = r3.Vector{X: v.X / l, Y: v.Y / l, Z: v.Z / l}
				s := 1.0
				if rapid.IntRange(0, 3).Draw(t, "off") > 0 {
					s = 1 + gen.LogUniform(t, "d", -15, 0)
				}
				return UnitCase{v, s}
			}, checkUnit),
		},
	})
}
