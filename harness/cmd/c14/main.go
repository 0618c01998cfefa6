// C14: which points a tetrahedron contains.
package main

import (
	"math"

	mesh "geGoMetry/meshing"
	"geGoMetry/r3"
	tri3 "geGoMetry/triangulate3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct {
	V     [4]r3.Vector
	P     r3.Vector
	Exact bool
}

// side compares, exactly, the sides of plane abc on which d and p lie. decisive is false where rounding could matter.
func side(a, b, c, d, p r3.Vector, exact bool) (same, decisive bool) {
	od, _ := ex.Orient3Parts(a, b, c, d)
	op, _ := ex.Orient3Parts(a, b, c, p)
	if !exact {
		l := 0.0
		for _, v := range []r3.Vector{b, c, d, p} {
			l = math.Max(l, math.Max(math.Abs(v.X-a.X), math.Max(math.Abs(v.Y-a.Y), math.Abs(v.Z-a.Z))))
		}
		if tol := 1e-13 * l * l * l; math.Abs(ex.Float(od)) <= tol || math.Abs(ex.Float(op)) <= tol {
			return false, false
		}
	}
	return od.Sign()*op.Sign() >= 0, true
}

func check(c Case, r *pbt.R) {
	v := c.V
	same, ok := side(v[0], v[1], v[2], v[3], c.P, c.Exact)
	if ok {
		if got := tri3.SameSide(v[0], v[1], v[2], v[3], c.P); got != same {
			r.Failf("plane %v %v %v: %v and %v on the same side: got %v", v[0], v[1], v[2], v[3], c.P, got)
		}
		// The plane does not care for the order of its points, and the relation is symmetric.
		if got := tri3.SameSide(v[1], v[0], v[2], c.P, v[3]); got != same {
			r.Failf("plane %v %v %v: %v and %v on the same side: got %v", v[1], v[0], v[2], c.P, v[3], got)
		}
	}
	if ex.Orient3Sign(v[0], v[1], v[2], v[3]) == 0 {
		r.Label("flat")
		return
	}
	in, sure := true, true
	on := 0
	for i := range v {
		a, b, d, o := v[(i+1)%4], v[(i+2)%4], v[(i+3)%4], v[i]
		s, ok := side(a, b, d, o, c.P, c.Exact)
		if !ok {
			sure = false
		}
		in = in && s
		if ex.Orient3Sign(a, b, d, c.P) == 0 {
			on++
		}
	}
	if !sure {
		r.Label("too close to a face to decide")
		return
	}
	r.NonTrivial()
	switch {
	case in && on > 0:
		r.Label("on the boundary")
	case in:
		r.Label("inside")
	case on > 0:
		r.Label("outside, on a face's plane")
	default:
		r.Label("outside")
	}
	perms := [][4]int{{0, 1, 2, 3}, {3, 1, 0, 2}, {2, 0, 3, 1}, {1, 0, 2, 3}}
	for _, q := range perms {
		if got := tri3.VectorInTetrahedron(v[q[0]], v[q[1]], v[q[2]], v[q[3]], c.P); got != in {
			r.Failf("%v in tetrahedron %v (corner order %v): got %v", c.P, v, q, got)
		}
		if got := mesh.VerifVectorInTetrahedron(v[q[0]], v[q[1]], v[q[2]], v[q[3]], c.P); got != in {
			r.Failf("meshing: %v in tetrahedron %v (corner order %v): got %v", c.P, v, q, got)
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C14",
		Rule:        "tetrahedra with integer corners up to 500 or float corners over several magnitudes, scaled by powers of two from 2^-60 to 2^60, one in eight by up to 2^230 more either way; points drawn freely, at corners, on edges and faces, mirrored through a corner and as convex combinations; oracle: exact orientation signs, four corner orders, both implementations. Non-trivial: non-flat tetrahedron with a decided answer.",
		Assumptions: []string{"flat tetrahedra are left open", "for floats, orientation determinants within 1e-13 of the cubed extent are rounding"},
		Parts: []pbt.Part{
			pbt.P("contains", 240000, 3000000, func(t *rapid.T) Case {
				var c Case
				p, exact := gen.Cloud(t, 5, 5)
				copy(c.V[:], p)
				c.Exact, c.P = exact, p[4]
				lin := func(w [4]float64) r3.Vector {
					var q r3.Vector
					for i, v := range c.V {
						q = r3.Add(q, r3.Vector{X: w[i] * v.X, Y: w[i] * v.Y, Z: w[i] * v.Z})
					}
					return q
				}
				switch rapid.IntRange(0, 7).Draw(t, "where") {
				case 0, 1: // eighths, so that integer corners stay exact
					if exact {
						for i, v := range c.V {
							c.V[i] = r3.Vector{X: 8 * v.X, Y: 8 * v.Y, Z: 8 * v.Z}
						}
					}
					var w [4]float64
					left := 8
					for i := 0; i < 3; i++ {
						k := rapid.IntRange(0, left).Draw(t, "w")
						w[i] = float64(k) / 8
						left -= k
					}
					w[3] = float64(left) / 8
					c.P = lin(w)
				case 2: // slightly or far outside across a face
					if exact {
						for i, v := range c.V {
							c.V[i] = r3.Vector{X: 8 * v.X, Y: 8 * v.Y, Z: 8 * v.Z}
						}
					}
					w := [4]float64{0.25, 0.25, 0.25, 0.25}
					i, j := rapid.IntRange(0, 3).Draw(t, "i"), rapid.IntRange(0, 3).Draw(t, "j")
					s := float64(rapid.IntRange(0, 12).Draw(t, "s")) / 8
					w[i] += s
					w[j] -= s
					c.P = lin(w)
				case 3:
					c.P = c.V[rapid.IntRange(0, 3).Draw(t, "corner")]
				case 4:
					c.P = r3.Vector{X: c.V[0].X + c.V[1].X - c.V[2].X, Y: c.V[0].Y + c.V[1].Y - c.V[2].Y, Z: c.V[0].Z + c.V[1].Z - c.V[2].Z}
				}
				if rapid.IntRange(0, 7).Draw(t, "tiny or huge") == 7 {
					f := math.Ldexp(1, rapid.IntRange(-230, 230).Draw(t, "exponent"))
					for i, v := range c.V {
						c.V[i] = r3.Vector{X: f * v.X, Y: f * v.Y, Z: f * v.Z}
					}
					c.P = r3.Vector{X: f * c.P.X, Y: f * c.P.Y, Z: f * c.P.Z}
				}
				return c
			}, check),
		},
	})
}
