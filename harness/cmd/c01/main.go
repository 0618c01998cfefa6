// C01: vector arithmetic agrees with its definition; in-place and value forms agree; value forms leave operands alone.
package main

import (
	"math"
	"math/big"

	"geGoMetry/r3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct {
	A, B r3.Vector
	F    float64
}

const u = 1.0 / (1 << 53)

// near checks got against an exact value whose terms have absolute sum mag.
func near(r *pbt.R, what string, got float64, want *big.Rat, mag *big.Rat) {
	if math.IsNaN(got) || math.IsInf(got, 0) {
		r.Failf("%s: got %v, want %v", what, got, ex.Float(want))
	}
	tol := ex.Mul(mag, ex.F(16*u))
	if ex.Abs(ex.Sub(ex.F(got), want)).Cmp(tol) > 0 {
		r.Failf("%s: got %v, want %v", what, got, ex.Float(want))
	}
}

func nearV(r *pbt.R, what string, got r3.Vector, want, mag [3]*big.Rat) {
	near(r, what+".X", got.X, want[0], mag[0])
	near(r, what+".Y", got.Y, want[1], mag[1])
	near(r, what+".Z", got.Z, want[2], mag[2])
}

// sqrtNear checks got against the square root of want (exact).
func sqrtNear(r *pbt.R, what string, got float64, want *big.Rat) {
	if !(got >= 0) || math.IsInf(got, 0) {
		r.Failf("%s: got %v, want sqrt(%v)", what, got, ex.Float(want))
	}
	sq := ex.Mul(ex.F(got), ex.F(got))
	if ex.Abs(ex.Sub(sq, want)).Cmp(ex.Mul(want, ex.F(32*u))) > 0 {
		r.Failf("%s: got %v, want sqrt(%v)", what, got, ex.Float(want))
	}
}

func same(r *pbt.R, what string, got, want r3.Vector) {
	if got != want {
		r.Failf("%s: got %v, want %v", what, got, want)
	}
}

func check(c Case, r *pbt.R) {
	a, b := c.A, c.B
	ea, eb := ex.Vec(a), ex.Vec(b)
	var sum, dif, mag, sc, scm, ab [3]*big.Rat
	for i := range sum {
		sum[i], dif[i] = ex.Add(ea[i], eb[i]), ex.Sub(ea[i], eb[i])
		mag[i] = ex.Add(ex.Abs(ea[i]), ex.Abs(eb[i]))
		sc[i] = ex.Mul(ea[i], ex.F(c.F))
		scm[i] = ex.Abs(sc[i])
		ab[i] = ex.Abs(ea[i])
	}
	nearV(r, "Add", r3.Add(a, b), sum, mag)
	nearV(r, "Sub", r3.Sub(a, b), dif, mag)
	nearV(r, "Scaled", a.Scaled(c.F), sc, scm)
	nearV(r, "Abs", r3.Abs(a), ab, ab)

	v := a
	v.Add(b)
	nearV(r, "in-place Add", v, sum, mag)
	v = a
	v.Sub(b)
	nearV(r, "in-place Sub", v, dif, mag)
	v = a
	p := v.Scale(c.F)
	nearV(r, "in-place Scale", v, sc, scm)
	if p != &v {
		r.Failf("Scale returns another vector than its receiver")
	}
	v = a
	v.Abs()
	nearV(r, "in-place Abs", v, ab, ab)
	v = a
	v.Add(v)
	nearV(r, "doubling", v, [3]*big.Rat{ex.Add(ea[0], ea[0]), ex.Add(ea[1], ea[1]), ex.Add(ea[2], ea[2])}, mag2(ab))
	v = a
	v.Sub(v)
	same(r, "v-v", v, r3.Vector{})

	dot := ea.Dot(eb)
	dm := new(big.Rat)
	for i := range ea {
		dm.Add(dm, ex.Abs(ex.Mul(ea[i], eb[i])))
	}
	near(r, "Dot", r3.Dot(a, b), dot, dm)
	near(r, "Dot (swapped)", r3.Dot(b, a), dot, dm)
	cr := ea.Cross(eb)
	var cm [3]*big.Rat
	for i := range cm {
		j, k := (i+1)%3, (i+2)%3
		cm[i] = ex.Add(ex.Abs(ex.Mul(ea[j], eb[k])), ex.Abs(ex.Mul(ea[k], eb[j])))
	}
	nearV(r, "Cross", r3.Cross(a, b), cr, cm)
	ncr := [3]*big.Rat{new(big.Rat).Neg(cr[0]), new(big.Rat).Neg(cr[1]), new(big.Rat).Neg(cr[2])}
	nearV(r, "Cross (swapped)", r3.Cross(b, a), ncr, cm)

	n2 := ea.Dot(ea)
	near(r, "Norm2", a.Norm2(), n2, n2)
	near(r, "SquaredMagnitude", a.SquaredMagnitude(), n2, n2)
	sqrtNear(r, "Norm", a.Norm(), n2)
	sqrtNear(r, "Magnitude", a.Magnitude(), n2)

	// Distances: the difference is rounded first, so the error is relative to each component of the difference.
	d := [3]*big.Rat(dif)
	d2 := ex.V(d).Dot(ex.V(d))
	near(r, "SquaredDistance", r3.SquaredDistance(a, b), d2, d2)
	near(r, "SquaredDistance (swapped)", r3.SquaredDistance(b, a), d2, d2)
	sqrtNear(r, "Distance", r3.Distance(a, b), d2)
	sqrtNear(r, "Distance (swapped)", r3.Distance(b, a), d2)

	if a != c.A || b != c.B {
		r.Failf("an operand changed: %v, %v", a, b)
	}
	if r3.Zero != (r3.Vector{}) {
		r.Failf("the zero vector changed: %v", r3.Zero)
	}
	nz := 0
	for _, x := range []float64{a.X, a.Y, a.Z, b.X, b.Y, b.Z} {
		if x != 0 {
			nz++
		}
	}
	r.NonTrivialIf(nz >= 3)
	if n2.Sign() == 0 {
		r.Label("zero vector")
	}
	if cr[0].Sign() == 0 && cr[1].Sign() == 0 && cr[2].Sign() == 0 && n2.Sign() != 0 {
		r.Label("parallel operands")
	}
	if a == b {
		r.Label("equal operands")
	}
	if math.Abs(a.X) > 1e9 || math.Abs(a.X) < 1e-9 && a.X != 0 {
		r.Label("extreme magnitude")
	}
	if c.F < 0 {
		r.Label("negative factor")
	}
}

func mag2(a [3]*big.Rat) [3]*big.Rat {
	return [3]*big.Rat{ex.Add(a[0], a[0]), ex.Add(a[1], a[1]), ex.Add(a[2], a[2])}
}

func genCase(t *rapid.T) Case {
	c := Case{A: gen.Vec(t, "a", -60, 60), F: gen.Scalar(t, "f", -60, 60)}
	switch rapid.IntRange(0, 9).Draw(t, "relation") {
	case 0:
		c.B = c.A
	case 1:
		k := float64(rapid.IntRange(-3, 3).Draw(t, "k"))
		c.B = r3.Vector{X: k * c.A.X, Y: k * c.A.Y, Z: k * c.A.Z}
	default:
		c.B = gen.Vec(t, "b", -60, 60)
	}
	return c
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C01",
		Rule:        "pairs of vectors plus a factor, components zero, small integers, fractions, uniform or log-uniform in 1e-60..1e60, with equal and parallel pairs; oracle: exact rational arithmetic with a bound of 16 units of rounding on the sum of the absolute terms. Non-trivial: at least three non-zero components.",
		Assumptions: []string{"finite components whose products neither overflow nor underflow", "results are compared within a rounding bound, not bit for bit"},
		Parts:       []pbt.Part{pbt.P("arith", 240000, 4000000, genCase, check)},
	})
}
