// C30: derivatives of the basis functions.
package main

import (
	"math"
	"math/big"

	"nurbs"
	"verif/pbt"
	"verif/spline"

	"pgregory.net/rapid"
)

type Case struct {
	K     spline.Knots
	Order int
}

func check(c Case, r *pbt.R) {
	k := c.K
	r.NonTrivialIf(k.P >= 2 && c.Order >= 1)
	r.Label("%s", k.Label())
	r.Label("order %d", c.Order)
	span := k.Span()
	knots := append([]int(nil), k.U...)
	got := nurbs.VerifDers(span, k.T, k.P, c.Order, knots)
	if len(got) <= c.Order {
		r.Failf("%d rows for derivatives up to order %d", len(got), c.Order)
	}
	x := new(big.Rat).SetFloat64(k.T)
	basis := k.Basis(span, k.P)
	for o := 0; o <= c.Order; o++ {
		if len(got[o]) != k.P+1 {
			r.Failf("%d values for degree %d", len(got[o]), k.P)
		}
		scale := k.Magnitude(span, k.P, o)
		for j := 0; j <= k.P; j++ {
			i := span - k.P + j
			want, _ := basis[i].At(o, x).Float64()
			if !(math.Abs(got[o][j]-want) <= 1e-13*scale[i]+1e-300) {
				r.Failf("derivative %d of basis function %d at %v is %v, want %v", o, i, k.T, got[o][j], want)
			}
		}
	}
	for j := range knots {
		if knots[j] != k.U[j] {
			r.Failf("knots changed to %v", knots)
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C30",
		Rule:        "knot vectors and parameters as for the basis functions, orders from 0 to the degree; oracle: the exact polynomial pieces of the Cox-de Boor definition, differentiated symbolically, within rounding of the terms. Non-trivial: degree 2 or more, order 1 or more.",
		Assumptions: []string{"non-decreasing knots, a parameter within the domain, its non-empty span, order at most the degree"},
		Parts:       []pbt.Part{pbt.P("derivatives", 100000, 500000, draw(spline.Draw), check), pbt.P("high-degree", 350, 8000, draw(spline.DrawHigh), check)},
	})
}

func draw(knots func(*rapid.T) spline.Knots) func(*rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{K: knots(t)}
		c.Order = rapid.IntRange(0, c.K.P).Draw(t, "order")
		if rapid.Bool().Draw(t, "full") {
			c.Order = c.K.P
		}
		return c
	}
}
