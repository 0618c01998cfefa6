package gen

import (
	"geGoMetry/r3"

	"pgregory.net/rapid"
)

// Cloud draws a point set in space and tells whether all its coordinates are small integers, or these times a power of two.
func Cloud(t *rapid.T, min, max int) (p []r3.Vector, exact bool) {
	var f func(t *rapid.T) r3.Vector
	exact = true
	switch rapid.IntRange(0, 8).Draw(t, "cloud") {
	case 0, 1:
		m := rapid.SampledFrom([]int{1, 2, 5, 30, 500}).Draw(t, "m")
		f = func(t *rapid.T) r3.Vector { return IntVec(t, "p", m) }
	case 2: // far from the origin, in a chosen octant
		o := IntVec(t, "o", 1000)
		f = func(t *rapid.T) r3.Vector { return r3.Add(o, IntVec(t, "p", 10)) }
	case 3: // all coordinates negative, or all in one plane
		k := rapid.IntRange(0, 3).Draw(t, "axis")
		f = func(t *rapid.T) r3.Vector {
			v := IntVec(t, "p", 20)
			switch k {
			case 0:
				v.X = -7
			case 1:
				v.Y = -7
			case 2:
				v.Z = -7
			default:
				v = r3.Vector{X: v.X - 50, Y: v.Y - 50, Z: v.Z - 50}
			}
			return v
		}
	case 4: // long in one direction
		k := rapid.IntRange(0, 2).Draw(t, "axis")
		f = func(t *rapid.T) r3.Vector {
			v := IntVec(t, "p", 3)
			s := float64(rapid.IntRange(-500, 500).Draw(t, "s"))
			switch k {
			case 0:
				v.X += s
			case 1:
				v.Y += s
			default:
				v.Z += s
			}
			return v
		}
	case 5:
		exact = false
		s := rapid.SampledFrom([]float64{0.01, 1, 100, 1e4}).Draw(t, "s")
		o := Box(t, "o", -3*s, 3*s)
		f = func(t *rapid.T) r3.Vector { return r3.Add(o, Box(t, "p", -s, s)) }
	case 6: // each coordinate of a magnitude of its own
		exact = false
		lo := rapid.SampledFrom([]int{-15, -6, -2}).Draw(t, "lo")
		hi := rapid.SampledFrom([]int{2, 6, 15}).Draw(t, "hi")
		f = func(t *rapid.T) r3.Vector { return Vec(t, "p", lo, hi) }
	default:
		exact = false
		s := rapid.SampledFrom([]float64{0.01, 1, 100, 1e4}).Draw(t, "s")
		f = func(t *rapid.T) r3.Vector { return Box(t, "p", -s, s) }
	}
	lo := min
	if rapid.IntRange(0, 2).Draw(t, "many") == 0 {
		lo = (min + max) / 2
	}
	p = rapid.SliceOfN(rapid.Custom(f), lo, max).Draw(t, "points")
	scaleBy(t, p, -60, 60)
	Arrange(p, DrawOrder(t))
	return p, exact
}
