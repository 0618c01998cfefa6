package gen

import "geGoMetry/r3"

const room = 6

var mark = r3.Vector{X: 12345.678, Y: -1, Z: 1}

// Roomy copies p into a slice with room for more behind its end, so that appending to it in place and
// shifting its elements hits the caller's points.
func Roomy(p []r3.Vector) []r3.Vector {
	q := append(make([]r3.Vector, 0, len(p)+room), p...)
	for i := 0; i < room; i++ {
		q = append(q, mark)
	}
	return q[:len(p)]
}
