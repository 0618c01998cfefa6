// C28: basis functions.
package main

import (
	"math"
	"math/big"

	"nurbs"
	"verif/pbt"
	"verif/spline"
)

func check(k spline.Knots, r *pbt.R) {
	r.NonTrivialIf(k.P >= 2)
	r.Label("%s", k.Label())
	span := k.Span()
	knots := append([]int(nil), k.U...)
	got := nurbs.VerifBasis(span, k.T, k.P, knots)
	if len(got) != k.P+1 {
		r.Failf("%d values for degree %d", len(got), k.P)
	}
	x := new(big.Rat).SetFloat64(k.T)
	sum := 0.0
	for i, b := range k.Basis(span, k.P) {
		want, _ := b.At(0, x).Float64()
		j := i - (span - k.P)
		if j < 0 || j > k.P {
			if want != 0 {
				panic("the reference is wrong")
			}
			continue
		}
		if !(math.Abs(got[j]-want) <= 1e-14*float64(k.P+1)*math.Abs(want)+1e-300) {
			r.Failf("basis function %d at %v is %v, want %v", i, k.T, got[j], want)
		}
		if got[j] < 0 {
			r.Failf("basis function %d at %v is %v, negative", i, k.T, got[j])
		}
		sum += got[j]
	}
	if math.Abs(sum-1) > 1e-14*float64(k.P+1) {
		r.Failf("the basis functions at %v sum up to %v", k.T, sum)
	}
	for j := range knots {
		if knots[j] != k.U[j] {
			r.Failf("knots changed to %v", knots)
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C28",
		Rule:        "integer knot vectors of degree 0..10 (a part of its own 11..30) and up to 10 spans, sometimes 300: clamped, uniform, free with repeated knots anywhere, Bezier; parameters at knots, at both ends, one rounding step beside knots, at fractions and uniform; oracle: the Cox-de Boor definition in rational arithmetic, relative error 1e-14 per degree. Non-trivial: degree 2 or more.",
		Assumptions: []string{"non-decreasing knots, a parameter within the domain, its non-empty span"},
		Parts:       []pbt.Part{pbt.P("basis", 240000, 800000, spline.Draw, check), pbt.P("high-degree", 900, 20000, spline.DrawHigh, check)},
	})
}
