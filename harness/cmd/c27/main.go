// C27: knot spans.
package main

import (
	"nurbs"
	"verif/pbt"
	"verif/spline"
)

func check(k spline.Knots, r *pbt.R) {
	r.NonTrivialIf(k.N() > k.P)
	r.Label("%s", k.Label())
	knots := append([]int(nil), k.U...)
	n := k.N()
	i := nurbs.VerifSpan(n, k.P, k.T, knots)
	if i < k.P || i > n {
		r.Failf("span %d outside the domain's %d..%d", i, k.P, n)
	}
	lo, hi := float64(k.U[i]), float64(k.U[i+1])
	if k.T < float64(k.U[n+1]) {
		if !(lo <= k.T && k.T < hi) {
			r.Failf("span %d is [%v,%v), it does not hold %v", i, lo, hi, k.T)
		}
	} else if !(lo < k.T && k.T == hi) {
		r.Failf("at the end of the domain, %v, span %d is [%v,%v)", k.T, i, lo, hi)
	}
	for j := range knots {
		if knots[j] != k.U[j] {
			r.Failf("knots changed to %v", knots)
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C27",
		Rule:        "integer knot vectors of degree 0..10 (a part of its own 11..30) and up to 10 spans, sometimes 300: clamped, uniform, free with repeated knots anywhere, Bezier; parameters at knots, at both ends, one rounding step beside knots, at fractions and uniform; oracle: the definition. Non-trivial: more than one span.",
		Assumptions: []string{"non-decreasing knots, a domain that is not empty, a parameter within it"},
		Parts:       []pbt.Part{pbt.P("span", 1800000, 3600000, spline.Draw, check), pbt.P("high-degree", 60000, 200000, spline.DrawHigh, check)},
	})
}
