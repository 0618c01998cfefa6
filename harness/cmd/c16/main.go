// C16: the initial simplex of the 3D construction is spanned by extreme points.
package main

import (
	"math"

	"geGoMetry/r3"
	tri3 "geGoMetry/triangulate3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct {
	P     []r3.Vector
	Exact bool
}

func tripleArea(a, b, c r3.Vector) float64 { // squared
	x := ex.Vec(b).Sub(ex.Vec(a)).Cross(ex.Vec(c).Sub(ex.Vec(a)))
	return ex.Float(x.Dot(x))
}

func volume(a, b, c, d r3.Vector) float64 {
	va := ex.Vec(a)
	return ex.Float(ex.Det3(ex.Vec(b).Sub(va), ex.Vec(c).Sub(va), ex.Vec(d).Sub(va)))
}

func len1(v r3.Vector) float64 { return math.Abs(v.X) + math.Abs(v.Y) + math.Abs(v.Z) }

func measures(p []r3.Vector, exact bool, r *pbt.R) {
	for i := 0; i+3 < len(p) && i < 3; i++ {
		a, b, c, d := p[i], p[i+1], p[i+2], p[i+3]
		ab, ac, ad := len1(r3.Sub(b, a)), len1(r3.Sub(c, a)), len1(r3.Sub(d, a))
		tol := 0.0
		if !exact {
			tol = 1e-14
		}
		if got, want := tri3.Get2Ddist(a, b, c), tripleArea(a, b, c); !(math.Abs(got-want) <= 10*tol*ab*ab*ac*ac) {
			r.Failf("squared area measure of %v %v %v: got %v, want %v", a, b, c, got, want)
		}
		if got, want := tri3.Get3Ddist(a, b, c, d), volume(a, b, c, d); !(math.Abs(got-want) <= 10*tol*ab*ac*ad) {
			r.Failf("volume measure of %v %v %v %v: got %v, want %v", a, b, c, d, got, want)
		}
	}
}

func check(c Case, r *pbt.R) {
	measures(c.P, c.Exact, r)
	in := gen.Roomy(c.P)
	got := tri3.VerifInitialTetra(in)
	for i := range in {
		if in[i] != c.P[i] {
			r.Failf("the input changed at %d", i)
		}
	}
	minX, maxX := math.Inf(1), math.Inf(-1)
	for _, p := range c.P {
		minX, maxX = math.Min(minX, p.X), math.Max(maxX, p.X)
	}
	if len(got) != 4 {
		r.Failf("initial simplex of %d corners", len(got))
	}
	if minX == maxX {
		r.Label("no extent in x")
		return
	}
	v0, v1, v2, v3 := got[0], got[1], got[2], got[3]
	if v0.X != minX || v1.X != maxX {
		r.Failf("first corners %v and %v, but x ranges over %v..%v", v0, v1, minX, maxX)
	}
	best := 0.0
	for _, p := range c.P {
		best = math.Max(best, tripleArea(v0, v1, p))
	}
	slack := 0.0
	if !c.Exact {
		slack = 1e-11
	}
	far := 0.0
	for _, p := range c.P {
		far = math.Max(far, len1(r3.Sub(p, v0)))
	}
	round := 0.0 // rounding of a length along the line or across
	if !c.Exact {
		round = 1e-14 * far
	}
	if math.Sqrt(best) <= 10*round*len1(r3.Sub(v1, v0)) {
		r.Label("on one line")
		return
	}
	if a := tripleArea(v0, v1, v2); math.Sqrt(a) < math.Sqrt(best)*(1-slack)-round*len1(r3.Sub(v1, v0)) {
		r.Failf("third corner %v is not furthest from the line %v %v: %v below %v", v2, v0, v1, a, best)
	}
	bestV := 0.0
	for _, p := range c.P {
		bestV = math.Max(bestV, math.Abs(volume(v0, v1, v2, p)))
	}
	size := math.Sqrt(tripleArea(v0, v1, v2)) * math.Sqrt(best) / len1(r3.Sub(v1, v0))
	if bestV <= 1e-9*size || bestV <= 10*round*far*len1(r3.Sub(v1, v0)) {
		r.Label("in one plane")
		return
	}
	r.NonTrivial()
	members := map[r3.Vector]bool{}
	for _, p := range c.P {
		members[p] = true
	}
	for _, v := range got {
		if !members[v] {
			r.Failf("corner %v is not an input point", v)
		}
	}
	if v := math.Abs(volume(v0, v1, v2, v3)); v < bestV*(1-slack)-round*far*len1(r3.Sub(v1, v0)) {
		r.Failf("fourth corner %v is not furthest from the plane %v %v %v: %v below %v", v3, v0, v1, v2, v, bestV)
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C16",
		Rule:        "4 to 20 points in space: lattice ranges, far from the origin, all negative, in an axis plane, elongated, floats of several magnitudes within and between points, scaled by powers of two from 2^-60 to 2^60, and seeded clouds of 60 to 600 and of 20000 to 70000; oracle: exact areas and volumes over all points: the corners are input points, extreme in x, furthest from the line and furthest from the plane on either side; the exported area and volume measures against rational arithmetic. Non-trivial: points not in one plane.",
		Assumptions: []string{"points in one plane or on one line are left open, apart from the measures", "for floats the maxima may be missed by a relative 1e-11"},
		Parts: []pbt.Part{
			pbt.P("simplex", 75000, 800000, func(t *rapid.T) Case { p, e := gen.Cloud(t, 4, 20); return Case{p, e} }, check),
			pbt.P("many", 800, 8000, func(t *rapid.T) gen.Scatter { return gen.Scatter{}.Draw(t, 60, 600) }, func(c gen.Scatter, r *pbt.R) { check(Case{c.Points(), false}, r) }),
			pbt.P("vast", 16, 200, func(t *rapid.T) gen.Scatter { return gen.Scatter{}.Draw(t, 20000, 70000) }, func(c gen.Scatter, r *pbt.R) { check(Case{c.Points(), false}, r) }),
		},
	})
}
