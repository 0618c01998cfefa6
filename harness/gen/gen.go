// Package gen holds the generators shared by the checks. Every choice comes from rapid.
package gen

import (
	"math"

	"geGoMetry/r3"

	"pgregory.net/rapid"
)

// Scalar draws finite numbers of many shapes with |x| between 10^lo and 10^hi, or zero.
func Scalar(t *rapid.T, label string, lo, hi int) float64 {
	switch rapid.IntRange(0, 9).Draw(t, label+".kind") {
	case 0:
		return 0
	case 1, 2, 3:
		v := float64(rapid.IntRange(-12, 12).Draw(t, label))
		if a := math.Abs(v); a != 0 && (a < pow10(lo) || a > pow10(hi)) {
			return math.Copysign(pow10(lo), v)
		}
		return v
	case 4:
		return rapid.SampledFrom([]float64{1, -1, 0.5, -0.25, 0.1, -0.3, 1.0 / 3, math.Pi, -math.Sqrt2, 1000, -255}).Draw(t, label) * clampUnit(lo, hi)
	case 5, 6:
		return LogUniform(t, label, lo, hi)
	default:
		m := math.Min(pow10(hi), 100)
		m = math.Max(m, pow10(lo))
		f := Uniform(t, label, -m, m)
		if f != 0 && math.Abs(f) < pow10(lo) {
			return 0
		}
		return f
	}
}

func clampUnit(lo, hi int) float64 {
	if lo > -2 || hi < 3 {
		return pow10(lo) * 10
	}
	return 1
}

func pow10(e int) float64 { return math.Pow(10, float64(e)) }

// Uniform draws close to uniformly from [lo, hi] (rapid's own float generator favours tiny numbers).
func Uniform(t *rapid.T, label string, lo, hi float64) float64 {
	const n = 1 << 30
	k := rapid.IntRange(0, n).Draw(t, label)
	// Spread rapid's bias towards small integers over the whole range.
	u := float64((uint64(k)*2654435769)%n) / n
	return lo + (hi-lo)*u
}

// LogUniform draws sign * 10^e with e uniform in [lo, hi].
func LogUniform(t *rapid.T, label string, lo, hi int) float64 {
	e := Uniform(t, label+".exp", float64(lo), float64(hi))
	v := math.Pow(10, e)
	if rapid.Bool().Draw(t, label+".neg") {
		v = -v
	}
	return v
}

// Vec draws a vector with components as in Scalar.
func Vec(t *rapid.T, label string, lo, hi int) r3.Vector {
	switch rapid.IntRange(0, 11).Draw(t, label+".shape") {
	case 0:
		v := r3.Vector{}
		x := Scalar(t, label+".axis", lo, hi)
		switch rapid.IntRange(0, 2).Draw(t, label+".which") {
		case 0:
			v.X = x
		case 1:
			v.Y = x
		default:
			v.Z = x
		}
		return v
	case 1:
		x := Scalar(t, label+".diag", lo, hi)
		return r3.Vector{X: x, Y: x, Z: x}
	}
	return r3.Vector{X: Scalar(t, label+".x", lo, hi), Y: Scalar(t, label+".y", lo, hi), Z: Scalar(t, label+".z", lo, hi)}
}

// Power draws a power of two, mostly one. Scaling by it changes no digit of a polynomial's value.
func Power(t *rapid.T, lo, hi int) float64 {
	if rapid.IntRange(0, 4).Draw(t, "power") != 4 {
		return 1
	}
	return math.Ldexp(1, rapid.IntRange(lo, hi).Draw(t, "exp"))
}

// IntVec draws a vector of small integers.
func IntVec(t *rapid.T, label string, m int) r3.Vector {
	g := rapid.IntRange(-m, m)
	return r3.Vector{X: float64(g.Draw(t, label+".x")), Y: float64(g.Draw(t, label+".y")), Z: float64(g.Draw(t, label+".z"))}
}

// Box draws a vector uniformly from a cube.
func Box(t *rapid.T, label string, lo, hi float64) r3.Vector {
	return r3.Vector{X: Uniform(t, label+".x", lo, hi), Y: Uniform(t, label+".y", lo, hi), Z: Uniform(t, label+".z", lo, hi)}
}
