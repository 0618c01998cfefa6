// C04: intersecting a line with a plane.
package main

import (
	"math"

	"geGoMetry/r3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct{ P, D, N, O r3.Vector } // line through P along D; plane through O with normal N

func norm(v r3.Vector) float64 { return math.Sqrt(v.X*v.X + v.Y*v.Y + v.Z*v.Z) }

// integral tells that dot products with v are exact in doubles.
func integral(v r3.Vector) bool {
	for _, x := range []float64{v.X, v.Y, v.Z} {
		if x != math.Trunc(x) || math.Abs(x) > 1<<20 {
			return false
		}
	}
	return true
}

func check(c Case, r *pbt.R) {
	line := r3.Line{Vector: c.P, Direction: c.D}
	plane := r3.Plane3D{Normal: c.N, Vector: c.O}
	var x r3.Vector
	why, panicked := pbt.Try(func() { x = line.IntersectPlane(plane) })

	ed, en := ex.Vec(c.D), ex.Vec(c.N)
	dn := ed.Dot(en)
	cos := 0.0
	if l := norm(c.D) * norm(c.N); l > 0 {
		cos = ex.Float(dn) / l
	}
	if dn.Sign() == 0 {
		r.Label("parallel")
		if !integral(c.D) || !integral(c.N) {
			r.Label("parallel up to rounding, left open")
			return
		}
		r.NonTrivialIf(norm(c.D) > 0)
		if !panicked {
			r.Failf("line %v + t%v is parallel to the plane through %v with normal %v but meets it at %v", c.P, c.D, c.O, c.N, x)
		}
		return
	}
	if math.Abs(cos) < 1e-11 {
		r.Label("too close to parallel to decide")
		return
	}
	r.NonTrivial()
	if math.Abs(cos) < 1e-3 {
		r.Label("nearly parallel")
	}
	if panicked {
		r.Failf("line %v + t%v and plane through %v with normal %v are not parallel, yet: %v", c.P, c.D, c.O, c.N, why)
	}
	if math.IsNaN(x.X+x.Y+x.Z) || math.IsInf(x.X+x.Y+x.Z, 0) {
		r.Failf("intersection is %v", x)
	}
	// Exact intersection point.
	ep, eo := ex.Vec(c.P), ex.Vec(c.O)
	t := ex.Quo(en.Dot(eo.Sub(ep)), dn)
	w := ex.V{ex.Add(ep[0], ex.Mul(t, ed[0])), ex.Add(ep[1], ex.Mul(t, ed[1])), ex.Add(ep[2], ex.Mul(t, ed[2]))}
	want := r3.Vector{X: ex.Float(w[0]), Y: ex.Float(w[1]), Z: ex.Float(w[2])}
	// Rounding in the dot products is divided by the cosine.
	tol := 64 * 1.2e-16 * (norm(c.P) + norm(c.O) + norm(want)) / math.Abs(cos)
	e := r3.Vector{X: x.X - want.X, Y: x.Y - want.Y, Z: x.Z - want.Z}
	if norm(e) > tol {
		r.Failf("line %v + t%v meets the plane through %v with normal %v at %v, got %v", c.P, c.D, c.O, c.N, want, x)
	}
	if t.Sign() < 0 {
		r.Label("behind the line's point")
	}
	if t.Sign() == 0 {
		r.Label("line's point on the plane")
	}
	if l := norm(c.D); l < 0.5 || l > 2 {
		r.Label("direction not of unit length")
	}
	if l := norm(c.N); l < 0.5 || l > 2 {
		r.Label("normal not of unit length")
	}
	if line.Vector != c.P || line.Direction != c.D || plane.Normal != c.N || plane.Vector != c.O {
		r.Failf("the line or the plane changed")
	}
}

func perp(t *rapid.T, n r3.Vector, m int) r3.Vector {
	k := gen.IntVec(t, "k", m)
	return r3.Vector{X: n.Y*k.Z - n.Z*k.Y, Y: n.Z*k.X - n.X*k.Z, Z: n.X*k.Y - n.Y*k.X}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C04",
		Rule:        "lines and planes from integer, axis-parallel and uniform vectors with positions up to 1e6 and lengths 1e-4..1e4 (some 2^-100..2^100 times that, positions 2^-60..2^60 times), including exactly parallel pairs (integer cross products, axis pairs), lines lying in the plane and cosines down to 1e-11; oracle: exact rational intersection, error bound 64 units of rounding over the cosine. Non-trivial: non-parallel, or parallel with a non-zero direction.",
		Assumptions: []string{"non-zero normal", "cosines in (0, 1e-11) are left open", "exact parallelism is decided for integer vectors, whose dot product is exact in doubles"},
		Parts: []pbt.Part{
			pbt.P("meet", 640000, 3000000, func(t *rapid.T) Case {
				m := rapid.SampledFrom([]int{1, 2, 6}).Draw(t, "m")
				var c Case
				c.P, c.O = gen.Vec(t, "p", -m, m), gen.Vec(t, "o", -m, m)
				for _, v := range []struct {
					name string
					v    *r3.Vector
				}{{"d", &c.D}, {"n", &c.N}} {
					switch rapid.IntRange(0, 3).Draw(t, v.name+".kind") {
					case 0:
						*v.v = gen.IntVec(t, v.name, 5)
					case 1:
						*v.v = gen.Vec(t, v.name, -4, 4)
					default:
						*v.v = gen.Box(t, v.name, -1, 1)
						if rapid.Bool().Draw(t, v.name+".scale") {
							f := gen.LogUniform(t, v.name+".len", -4, 4)
							*v.v = r3.Vector{X: v.v.X * f, Y: v.v.Y * f, Z: v.v.Z * f}
						}
					}
				}
				if c.N == (r3.Vector{}) {
					c.N = r3.Vector{Y: 1}
				}
				fn, fd := gen.Power(t, -100, 100), gen.Power(t, -100, 100)
				c.N, c.D = c.N.Scaled(fn), c.D.Scaled(fd)
				if f := gen.Power(t, -60, 60); f != 1 {
					c.P, c.O = c.P.Scaled(f), c.O.Scaled(f)
				}
				switch rapid.IntRange(0, 19).Draw(t, "relation") {
				case 0:
					c.P = c.O
				case 1, 2: // nearly parallel
					q := perp(t, c.N, 3)
					e := gen.LogUniform(t, "tilt", -10, -1)
					l, ln := norm(q), norm(c.N)
					if l > 0 {
						c.D = r3.Vector{X: q.X/l + e*c.N.X/ln, Y: q.Y/l + e*c.N.Y/ln, Z: q.Z/l + e*c.N.Z/ln}
					}
				}
				return c
			}, check),
			pbt.P("parallel", 160000, 500000, func(t *rapid.T) Case {
				c := Case{P: gen.IntVec(t, "p", 50), O: gen.IntVec(t, "o", 50), N: gen.IntVec(t, "n", 9)}
				if c.N == (r3.Vector{}) {
					c.N = r3.Vector{Y: 1}
				}
				c.D = perp(t, c.N, 6)
				if rapid.IntRange(0, 3).Draw(t, "inplane") == 0 {
					k := float64(rapid.IntRange(-5, 5).Draw(t, "along"))
					c.P = r3.Vector{X: c.O.X + k*c.D.X, Y: c.O.Y + k*c.D.Y, Z: c.O.Z + k*c.D.Z}
				}
				return c
			}, check),
			pbt.P("grazing", 160000, 500000, func(t *rapid.T) Case { // integers of a determinant of one or little more
				m := rapid.SampledFrom([]int{3, 100, 1 << 16, 1 << 19}).Draw(t, "m")
				c := Case{P: gen.IntVec(t, "p", 50), O: gen.IntVec(t, "o", 50)}
				a, b := float64(rapid.IntRange(1, m).Draw(t, "a")), float64(rapid.IntRange(-m, m).Draw(t, "b"))
				c.N = r3.Vector{X: a, Y: b}
				c.D = r3.Vector{X: -b, Y: a}
				if rapid.Bool().Draw(t, "third") {
					c.N.Z = float64(rapid.IntRange(1, 3).Draw(t, "nz"))
					c.D.Z = float64(rapid.IntRange(-3, 3).Draw(t, "dz"))
				} else {
					c.D = r3.Add(c.D, gen.IntVec(t, "off", 2))
				}
				c.N, c.D = gen.Symmetric2(t, c.N, c.D)
				return c
			}, check),
		},
	})
}
