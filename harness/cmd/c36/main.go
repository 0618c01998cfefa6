// C36: the normal of the plane through three points.
package main

import (
	"math"
	"math/big"

	"geGoMetry/r3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct {
	A, B, C r3.Vector
	Exact   bool // small integers: nothing is rounded
}

func comp(v r3.Vector) [3]float64 { return [3]float64{v.X, v.Y, v.Z} }

func check(c Case, r *pbt.R) {
	a, b, d := c.A, c.B, c.C
	va, vb, vc := ex.Vec(a), ex.Vec(b), ex.Vec(d)
	u, v := vb.Sub(va), vc.Sub(va)
	want := u.Cross(v)
	got := r3.VerifNormal(a, b, d)
	// bound on what rounding can do to each component
	fu, fv := [3]float64{}, [3]float64{}
	for k := range fu {
		fu[k], fv[k] = math.Abs(ex.Float(u[k])), math.Abs(ex.Float(v[k]))
	}
	tol := func(k int) float64 {
		i, j := (k+1)%3, (k+2)%3
		if c.Exact {
			return 0
		}
		return 16 * 0x1p-53 * (fu[i]*fv[j] + fu[j]*fv[i])
	}
	near := func(x r3.Vector, sign int64, what string) {
		for k, g := range comp(x) {
			w := ex.Float(ex.Mul(want[k], big.NewRat(sign, 1)))
			if !(math.Abs(g-w) <= tol(k)) {
				r.Failf("%s of %v %v %v: component %d is %v, want %v", what, a, b, d, k, g, w)
			}
		}
	}
	near(got, 1, "normal")
	if x := ex.Float(want.Dot(want)); x != 0 {
		r.NonTrivial()
	} else {
		r.Label("collinear")
	}
	if c.Exact {
		near(r3.VerifNormal(b, d, a), 1, "normal, first point last,")
		near(r3.VerifNormal(a, d, b), -1, "normal, other way round,")
		r.Label("exact")
	}
	if w := ex.Float(ex.Sub(ex.Mul(va[0], vb[1]), ex.Mul(va[1], vb[0]))); !(math.Abs(r3.VerifDet2D(a, b)-w) <= 8*0x1p-53*(math.Abs(a.X*b.Y)+math.Abs(a.Y*b.X))) {
		r.Failf("planar determinant of %v %v is %v, want %v", a, b, r3.VerifDet2D(a, b), w)
	}
	// The plane with this normal holds the points, and a line through it along the normal meets it at its foot.
	l := math.Sqrt(ex.Float(want.Dot(want)))
	size := 0.0
	for _, p := range []r3.Vector{a, b, d} {
		size = math.Max(size, math.Abs(p.X)+math.Abs(p.Y)+math.Abs(p.Z))
	}
	edge := math.Sqrt(ex.Float(u.Dot(u))) + math.Sqrt(ex.Float(v.Dot(v)))
	if l == 0 || l < 1e-3*edge*edge {
		return
	}
	r.Label("plane")
	n := r3.Normalize(got)
	plane := r3.VerifNewPlane(n, a)
	for _, p := range []r3.Vector{a, b, d} {
		if h := p.CalculateDistanceToPlane(plane); !(math.Abs(h) <= 1e-11*(size+edge)) {
			r.Failf("%v is %v above the plane through %v %v %v", p, h, a, b, d)
		}
	}
	top := r3.Add(b, n.Scaled(edge))
	if h := top.CalculateDistanceToPlane(plane); !(math.Abs(h-edge) <= 1e-11*(size+edge)) {
		r.Failf("%v is %v above the plane through %v %v %v, want %v", top, h, a, b, d, edge)
	}
	foot := r3.Line{Vector: top, Direction: got}.IntersectPlane(r3.Plane3D{Normal: got, Vector: d})
	if x := r3.Distance(foot, b); !(x <= 1e-11*(size+edge)) {
		r.Failf("the foot of %v on the plane through %v %v %v is %v, want %v", top, a, b, d, foot, b)
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C36",
		Rule:        "triples of points: small integers (judged exactly, collinear and repeated ones included), vectors of all shapes, far from the origin; oracle: exact cross product of the edges, within 16 rounding units of its terms, signs under reordering, height of all three points over the plane built from the normal. Non-trivial: not collinear.",
		Assumptions: []string{"the plane is only built for triangles whose area exceeds a thousandth of their squared edges"},
		Parts: []pbt.Part{pbt.P("normal", 200000, 3000000, func(t *rapid.T) Case {
			if rapid.IntRange(0, 2).Draw(t, "exact") == 0 {
				m := rapid.SampledFrom([]int{1, 3, 100}).Draw(t, "m")
				c := Case{A: gen.IntVec(t, "a", m), B: gen.IntVec(t, "b", m), C: gen.IntVec(t, "c", m), Exact: true}
				if rapid.IntRange(0, 5).Draw(t, "far") == 0 {
					o := gen.IntVec(t, "o", 1000000)
					c.A, c.B, c.C = r3.Add(c.A, o), r3.Add(c.B, o), r3.Add(c.C, o)
				}
				return c
			}
			c := Case{A: gen.Vec(t, "a", -4, 4), B: gen.Vec(t, "b", -4, 4), C: gen.Vec(t, "c", -4, 4)}
			if rapid.Bool().Draw(t, "close") {
				s := gen.LogUniform(t, "s", -4, 3)
				c.B = r3.Add(c.A, c.B.Scaled(s/1e4))
				c.C = r3.Add(c.A, c.C.Scaled(s/1e4))
			}
			return c
		}, check)},
	})
}
