package gen

import (
	"sort"

	"geGoMetry/r3"

	"pgregory.net/rapid"
)

// Orders are the ways points may come: as drawn, along an axis, around a circle, from the inside or to it.
var Orders = []string{"x", "-x", "y", "-y", "z", "in", "out", "pairs"}

// DrawOrder draws an order, mostly none.
func DrawOrder(t *rapid.T) string {
	if rapid.IntRange(0, 5).Draw(t, "sorted") != 5 {
		return ""
	}
	return rapid.SampledFrom(Orders).Draw(t, "by")
}

// Arrange sorts the points in place.
func Arrange(p []r3.Vector, how string) {
	var m r3.Vector
	for _, v := range p {
		m = r3.Add(m, v)
	}
	if n := float64(len(p)); n > 0 {
		m = r3.Vector{X: m.X / n, Y: m.Y / n, Z: m.Z / n}
	}
	key := map[string]func(v r3.Vector) float64{
		"x": func(v r3.Vector) float64 { return v.X }, "-x": func(v r3.Vector) float64 { return -v.X },
		"y": func(v r3.Vector) float64 { return v.Y }, "-y": func(v r3.Vector) float64 { return -v.Y },
		"z":  func(v r3.Vector) float64 { return v.Z },
		"in": func(v r3.Vector) float64 { return -r3.Distance(v, m) }, "out": func(v r3.Vector) float64 { return r3.Distance(v, m) },
		"pairs": func(v r3.Vector) float64 { return v.X },
	}[how]
	if key == nil {
		return
	}
	sort.SliceStable(p, func(i, j int) bool { return key(p[i]) < key(p[j]) })
	if how == "pairs" { // the ends alternate
		q := append([]r3.Vector(nil), p...)
		for i := range p {
			if p[i] = q[i/2]; i%2 == 1 {
				p[i] = q[len(q)-1-i/2]
			}
		}
	}
}
