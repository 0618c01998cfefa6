package gen

import (
	"math"

	"geGoMetry/r3"

	"pgregory.net/rapid"
)

// Five draws five points: integer, uniform, clustered far from the origin, cospherical or nearly so.
func Five(t *rapid.T, intMax int) [5]r3.Vector {
	var p [5]r3.Vector
	kind := rapid.IntRange(0, 9).Draw(t, "kind")
	switch kind {
	case 0, 1:
		m := rapid.SampledFrom([]int{1, 3, 10, intMax}).Draw(t, "m")
		for i := range p {
			p[i] = IntVec(t, "p", m)
		}
	case 2: // integer points of one sphere around an integer center: coordinates permuted and reflected
		c, v := IntVec(t, "c", 20), IntVec(t, "v", 20)
		for i := range p {
			p[i] = r3.Add(c, Symmetric(t, v))
		}
	case 3: // one of them moved by one
		c, v := IntVec(t, "c", 20), IntVec(t, "v", 20)
		for i := range p {
			p[i] = r3.Add(c, Symmetric(t, v))
		}
		p[4] = r3.Add(p[4], IntVec(t, "step", 1))
	case 4: // far cluster
		o := Box(t, "o", -1e4, 1e4)
		for i := range p {
			p[i] = r3.Add(o, Box(t, "p", -1, 1))
		}
	case 5: // nearly on one sphere
		o, rad := Box(t, "o", -5, 5), Uniform(t, "r", 0.5, 5)
		for i := range p {
			v := Box(t, "p", -1, 1)
			l := math.Sqrt(v.X*v.X + v.Y*v.Y + v.Z*v.Z)
			if l == 0 {
				l, v.X = 1, 1
			}
			p[i] = r3.Vector{X: o.X + rad*v.X/l, Y: o.Y + rad*v.Y/l, Z: o.Z + rad*v.Z/l}
		}
		if rapid.Bool().Draw(t, "bump") {
			p[4].Z += LogUniform(t, "by", -15, -3)
		}
	case 6: // nearly flat
		for i := range p {
			p[i] = Box(t, "p", -3, 3)
			p[i].Z *= 1e-6
		}
	case 7: // mixed magnitudes
		for i := range p {
			p[i] = Vec(t, "p", -3, 4)
		}
	default:
		for i := range p {
			p[i] = Box(t, "p", -3, 3)
		}
		if rapid.IntRange(0, 2).Draw(t, "near") == 0 { // e near the middle of the four
			p[4] = r3.Vector{X: (p[0].X + p[1].X + p[2].X + p[3].X) / 4, Y: (p[0].Y + p[1].Y + p[2].Y + p[3].Y) / 4, Z: (p[0].Z + p[1].Z + p[2].Z + p[3].Z) / 4}
		}
	}
	scaleBy(t, p[:], -90, 90)
	return p
}

func scaleBy(t *rapid.T, p []r3.Vector, lo, hi int) {
	f := Power(t, lo, hi)
	for i := range p {
		p[i] = p[i].Scaled(f)
	}
}

// Symmetric permutes and reflects the coordinates of v.
func Symmetric(t *rapid.T, v r3.Vector) r3.Vector {
	return symmetric(rapid.IntRange(0, 47).Draw(t, "sym"), v)
}

// Symmetric2 does the same to two vectors.
func Symmetric2(t *rapid.T, v, w r3.Vector) (r3.Vector, r3.Vector) {
	k := rapid.IntRange(0, 47).Draw(t, "sym")
	return symmetric(k, v), symmetric(k, w)
}

func symmetric(k int, v r3.Vector) r3.Vector {
	x := [3]float64{v.X, v.Y, v.Z}
	perm := [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[k/8]
	s := [3]float64{1, 1, 1}
	for i := range s {
		if k>>i&1 == 1 {
			s[i] = -1
		}
	}
	return r3.Vector{X: s[0] * x[perm[0]], Y: s[1] * x[perm[1]], Z: s[2] * x[perm[2]]}
}

// wide draws a number of up to 26 bits of mantissa times 2^lo..2^hi.
func wide(t *rapid.T, label string, lo, hi int) float64 {
	m := rapid.IntRange(0, 1<<26).Draw(t, label)
	k := (uint64(m) * 0x9E3779B1) % (1 << 27) // spread rapid's bias towards small numbers
	return math.Ldexp(float64(k)-(1<<26), rapid.IntRange(lo, hi).Draw(t, label+".exp"))
}

// Coplanar draws five points of one plane, each point and coordinate of a magnitude of its own, so that the
// determinants are zero although their products round; sometimes one point is a little off the plane.
func Coplanar(t *rapid.T) [5]r3.Vector {
	var p [5]r3.Vector
	plane := rapid.IntRange(0, 4).Draw(t, "plane")
	perm := rapid.IntRange(0, 5).Draw(t, "perm")
	spread := rapid.SampledFrom([]int{0, 3, 12}).Draw(t, "spread")
	common := rapid.Bool().Draw(t, "common")
	q := [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[perm]
	for i := range p {
		size := 0
		if !common {
			size = rapid.IntRange(-15, 15).Draw(t, "size")
		}
		x, y := wide(t, "x", size, size+spread), wide(t, "y", size, size+spread)
		if i == 4 && (plane < 3 || rapid.Bool().Draw(t, "origin")) {
			x, y = 0, 0 // differences stay exact
		}
		z := [...]float64{-x - y, x + y, 2*x - y, x, 4 * y}[plane]
		v := [3]float64{x, y, z}
		p[i] = r3.Vector{X: v[q[0]], Y: v[q[1]], Z: v[q[2]]}
	}
	if rapid.IntRange(0, 3).Draw(t, "off") == 0 {
		i := rapid.IntRange(0, 4).Draw(t, "which")
		p[i].Z += p[i].Z * LogUniform(t, "by", -15, -7)
	}
	scaleBy(t, p[:], -90, 60)
	return p
}
