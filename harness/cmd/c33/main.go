// C33: nearest point and centroid.
package main

import (
	"math"

	mesh "geGoMetry/meshing"
	"geGoMetry/r3"
	tri3 "geGoMetry/triangulate3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct {
	P     []r3.Vector
	C     r3.Vector
	Exact bool
}

// Many is a large cloud and a query, relative to its scale.
type Many struct {
	gen.Scatter
	C    r3.Vector
	Near int // one more than the index of the point that C is relative to, in thousandths of the scale
}

func check(c Case, r *pbt.R) {
	in := append([]r3.Vector(nil), c.P...)
	got := mesh.VerifNearest(in, c.C)
	member := false
	for i, p := range c.P {
		member = member || p == got
		if in[i] != p {
			r.Failf("the input changed at %d", i)
		}
	}
	if !member {
		r.Failf("nearest point %v of %d points is none of them", got, len(c.P))
	}
	d2 := func(p r3.Vector) float64 { v := ex.Vec(p).Sub(ex.Vec(c.C)); return ex.Float(v.Dot(v)) }
	best := math.Inf(1)
	for _, p := range c.P {
		best = math.Min(best, d2(p))
	}
	if d2(got) > best*(1+1e-14) {
		r.Failf("nearest point to %v: got %v at distance^2 %v, there is one at %v", c.C, got, d2(got), best)
	}
	r.NonTrivialIf(len(c.P) > 1)
	if len(c.P) < 4 {
		return
	}
	a, b, d, e := c.P[0], c.P[1], c.P[2], c.P[3]
	sum := func(f func(r3.Vector) float64) (mean, mag float64) {
		s := ex.Add(ex.Add(ex.F(f(a)), ex.F(f(b))), ex.Add(ex.F(f(d)), ex.F(f(e))))
		return ex.Float(ex.Quo(s, ex.F(4))), math.Abs(f(a)) + math.Abs(f(b)) + math.Abs(f(d)) + math.Abs(f(e))
	}
	// The point that a tetrahedron starts from is the nearest one to its centroid.
	n := len(c.P)
	{
		i := [][4]int{{0, 1, 2, 3}, {n - 1, n / 2, 0, n - 2}}[n%2]
		var v [3]float64 // four times the centroid
		for k := range v {
			e := ex.F(0)
			for _, j := range i {
				e = ex.Add(e, ex.Vec(c.P[j])[k])
			}
			v[k] = ex.Float(e)
		}
		far := func(p r3.Vector) float64 { // four times the distance; its rounding is a fraction of what is allowed
			return math.Hypot(4*p.X-v[0], math.Hypot(4*p.Y-v[1], 4*p.Z-v[2]))
		}
		got, best, mag := mesh.VerifNearestToCentroid(in, i), math.Inf(1), 0.0
		for _, p := range c.P {
			best = math.Min(best, far(p))
			mag = math.Max(mag, math.Max(math.Abs(p.X), math.Max(math.Abs(p.Y), math.Abs(p.Z))))
		}
		if !(far(got) <= best*(1+1e-14)+1e-13*mag) {
			r.Failf("nearest point to the centroid of corners %v: got %v, there is a nearer one", i, got)
		}
	}
	for k, m := range []r3.Vector{mesh.VerifCentroid(a, b, d, e), tri3.VerifCentroid(a, b, d, e)} {
		for _, f := range []func(r3.Vector) float64{
			func(v r3.Vector) float64 { return v.X }, func(v r3.Vector) float64 { return v.Y }, func(v r3.Vector) float64 { return v.Z },
		} {
			want, mag := sum(f)
			if !(math.Abs(f(m)-want) <= 1e-15*mag) {
				r.Failf("centroid %d of %v %v %v %v: got %v", k, a, b, d, e, m)
			}
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C33",
		Rule:        "1 to 15 points in space (lattice, far, flat, elongated, floats, repeated, scaled by powers of two from 2^-60 to 2^60) and a query point drawn from the same cloud, from its middle or freely, and seeded clouds of 60 to 800 and of 15000 to 70000; oracle: exact squared distances to all points; exact mean of four corners, both implementations; the nearest point to the centroid of four of the points. Non-trivial: two points or more.",
		Assumptions: []string{"points whose distances agree to 1e-14 may be chosen alike"},
		Parts: []pbt.Part{
			pbt.P("nearest", 300000, 1000000, func(t *rapid.T) Case {
				p, e := gen.Cloud(t, 1, 15)
				c := Case{P: p, Exact: e}
				switch rapid.IntRange(0, 3).Draw(t, "query") {
				case 0:
					c.C = p[rapid.IntRange(0, len(p)-1).Draw(t, "at")]
				case 1:
					c.C = gen.Vec(t, "c", -3, 5)
				default:
					c.C = r3.Add(p[0], gen.Box(t, "c", -10, 10))
				}
				return c
			}, check),
			pbt.P("many", 4000, 40000, many(60, 800), checkMany),
			pbt.P("vast", 8, 80, many(15000, 70000), checkMany),
		},
	})
}

func many(lo, hi int) func(t *rapid.T) Many {
	return func(t *rapid.T) Many {
		m := Many{Scatter: gen.Scatter{}.Draw(t, lo, hi), C: gen.Box(t, "c", -2, 2)}
		if rapid.Bool().Draw(t, "near") {
			m.Near = rapid.IntRange(1, m.N).Draw(t, "at")
		}
		return m
	}
}

func checkMany(c Many, r *pbt.R) {
	p := c.Points()
	q := r3.Vector{X: c.C.X * c.Scale, Y: c.C.Y * c.Scale, Z: c.C.Z * c.Scale}
	if c.Near > 0 && c.Near <= len(p) {
		q = r3.Add(p[c.Near-1], q.Scaled(1e-3))
	}
	check(Case{p, q, false}, r)
}
