// C34: inserting a point into a tetrahedron replaces it by four.
package main

import (
	"math"

	mesh "geGoMetry/meshing"
	"geGoMetry/r3"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct {
	V   [4]r3.Vector
	P   r3.Vector
	Idx []uint32 // indices before the flip
}

func check(c Case, r *pbt.R) {
	v, idx := mesh.VerifFlip14(append([]r3.Vector(nil), c.V[:]...), append([]uint32(nil), c.Idx...), c.P)
	if len(v) != 5 {
		r.Failf("%d vertices after the insertion", len(v))
	}
	for i := range c.V {
		if v[i] != c.V[i] {
			r.Failf("vertex %d became %v", i, v[i])
		}
	}
	if v[4] != c.P {
		r.Failf("inserted %v, the new vertex is %v", c.P, v[4])
	}
	if len(idx)%3 != 0 {
		r.Failf("%d indices", len(idx))
	}
	// Oriented triangles, rotated so that the smallest corner comes first.
	count := map[[3]uint32]int{}
	for i := 0; i < len(idx); i += 3 {
		t := [3]uint32{idx[i], idx[i+1], idx[i+2]}
		for t[0] > t[1] || t[0] > t[2] {
			t = [3]uint32{t[1], t[2], t[0]}
		}
		if t[0] == t[1] || t[1] == t[2] || t[1] > 4 || t[2] > 4 {
			r.Failf("triangle %v", idx[i:i+3])
		}
		count[t]++
	}
	for a := uint32(0); a < 5; a++ {
		for b := a + 1; b < 5; b++ {
			for d := b + 1; d < 5; d++ {
				want := 1 // a face of the tetrahedron
				if d == 4 {
					want = 2 // between two of the four
				}
				if f, g := count[[3]uint32{a, b, d}], count[[3]uint32{a, d, b}]; f != want || g != want {
					r.Failf("face %d %d %d appears %d and %d times in its two windings, want %d", a, b, d, f, g, want)
				}
			}
		}
	}
	// Where the point is inside, the four volumes add up to the whole.
	vol := func(a, b, d, e r3.Vector) float64 {
		return math.Abs(r3.Dot(r3.Sub(a, e), r3.Cross(r3.Sub(b, e), r3.Sub(d, e))))
	}
	if vol(c.V[0], c.V[1], c.V[2], c.V[3]) > 0 {
		r.NonTrivial()
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:   "C34",
		Rule: "a tetrahedron of four generated vertices of magnitudes from 2^-60 to 2^60, a point and any previous index list; oracle: vertices kept and the point appended, the index list holds every outer face once and every inner face twice, in both windings. Non-trivial: tetrahedron with a volume.",
		Parts: []pbt.Part{
			pbt.P("flip", 400000, 800000, func(t *rapid.T) Case {
				p, _ := gen.Cloud(t, 5, 5)
				c := Case{P: p[4]}
				copy(c.V[:], p)
				if rapid.IntRange(0, 3).Draw(t, "near") == 0 { // at a corner, or next to it
					e := math.Abs(gen.LogUniform(t, "eps", -14, 0))
					d := gen.IntVec(t, "dir", 1)
					c.P = c.V[rapid.IntRange(0, 3).Draw(t, "corner")]
					c.P = r3.Vector{X: c.P.X + e*d.X, Y: c.P.Y + e*d.Y, Z: c.P.Z + e*d.Z}
				}
				c.Idx = rapid.SliceOfN(rapid.Uint32Range(0, 3), 0, 24).Draw(t, "idx")
				return c
			}, check),
		},
	})
}
