package plane

import (
	"math"

	"geGoMetry/r3"
	"verif/gen"

	"pgregory.net/rapid"
)

// Huge is a seeded set of hundreds or thousands of points.
type Huge struct {
	Seed  uint64
	N     int
	Shape string
	Turn  int // symmetry of the square
	Scale float64
	Sort  string
}

var shapes = []string{"lattice", "block", "uniform", "ring", "deep", "fan", "fan", "spiral", "jitter", "clusters", "scales", "cross", "annulus"}

// DrawHuge draws a set of lo to hi points.
func DrawHuge(t *rapid.T, lo, hi int) Huge {
	h := Huge{
		Seed:  rapid.Uint64().Draw(t, "seed"),
		Shape: rapid.SampledFrom(shapes).Draw(t, "shape"),
		Turn:  rapid.IntRange(0, 7).Draw(t, "turn"),
		Scale: rapid.SampledFrom([]float64{1, 1, 64, 1.0 / 16}).Draw(t, "scale"),
		Sort:  gen.DrawOrder(t),
	}
	if rapid.IntRange(0, 3).Draw(t, "size") == 0 {
		h.N = rapid.IntRange((lo+hi)/2, hi).Draw(t, "n")
	} else {
		h.N = rapid.IntRange(lo, lo+(hi-lo)/4).Draw(t, "n")
	}
	if h.N > 5000 && (h.Shape == "fan" || h.Shape == "spiral" || h.Shape == "deep") {
		h.N = 5000 + (h.N-5000)/8 // these take a time that grows with the square
	}
	return h
}

// Case returns the set. The powers of two among the scales keep lattices exact.
func (h Huge) Case() Case {
	r := gen.Rand(h.Seed)
	f := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float() }
	n := h.N
	if n < 1 {
		n = 1
	}
	side := int(math.Sqrt(float64(n))) + 1
	c := Case{Kind: "huge " + h.Shape, P: make([]r3.Vector, n)}
	bend, turn := f(0.05, 1), f(0.5, 4)
	dist, angle := f(20, 80), f(0, 2*math.Pi)
	far := [2]float64{dist * math.Cos(angle), dist * math.Sin(angle)}
	for i := range c.P {
		var x, y float64
		switch h.Shape {
		case "lattice":
			x, y = math.Floor(f(-1000, 1001)), math.Floor(f(-1000, 1001))
			c.Exact = true
		case "block":
			x, y = float64(i%side), float64(i/side)
			c.Exact = true
		case "uniform":
			x, y = f(-1, 1), f(-1, 1)
		case "ring":
			a := f(0, 2*math.Pi)
			x, y = math.Cos(a), math.Sin(a)
		case "deep": // a flat bowl before a far point, which flips every edge of the bowl one after the other
			if y = f(-10, 10); i == 0 {
				x, y = -30, 0
			} else {
				x = 0.02 * y * y * y * y
			}
		case "fan", "spiral": // arcs of growing curvature before a far point, which flips up to every edge, each from within the last
			if i == 0 {
				x, y = far[0], far[1]
			} else if a := f(0, 1); h.Shape == "fan" {
				x, y = bend*50*a*a, 10*a
			} else {
				d := 10 + bend*a*15
				x, y = d*math.Cos(a*turn), d*math.Sin(a*turn)
			}
		case "jitter":
			x, y = float64(i%side)+f(-0.3, 0.3), float64(i/side)+f(-0.3, 0.3)
		case "clusters":
			x, y = float64(r.Next()%4)*100+f(0, 1), float64(r.Next()%3)*70+f(0, 1)
		case "scales":
			a, d := f(0, 2*math.Pi), 10*math.Exp(f(-8, 0))
			x, y = d*math.Cos(a), d*math.Sin(a)
		case "cross":
			x, y = f(-10, 10), f(0, 0.01)
			if i%2 == 0 {
				x, y = y, x
			}
		case "annulus":
			a, d := f(0, 2*math.Pi), f(5, 5.01)
			if i < 5 {
				d = f(0, 1)
			}
			x, y = d*math.Cos(a), d*math.Sin(a)
		}
		if !c.Exact {
			x, y = snap(x, 0.1), snap(y, 0.1)
		}
		if h.Turn&1 != 0 {
			x = -x
		}
		if h.Turn&2 != 0 {
			y = -y
		}
		if h.Turn&4 != 0 {
			x, y = y, x
		}
		c.P[i] = r3.Vector{X: x * h.Scale, Y: y * h.Scale, Z: f(-1, 1)}
	}
	for i := len(c.P) - 1; i > 0; i-- {
		j := int(r.Next() % uint64(i+1))
		c.P[i], c.P[j] = c.P[j], c.P[i]
	}
	gen.Arrange(c.P, h.Sort)
	return c
}
