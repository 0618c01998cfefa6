package exact

import (
	"math"
	"sort"

	"geGoMetry/r3"
)

// Delaunay returns the tetrahedra with empty circumspheres of the points, apart from those whose spheres
// are so large that they reach the corners of a tetrahedron a million times as large as the points' box.
// It inserts the points one by one, with exact predicates. ok is false where a decision among the
// points is closer than margin.
func Delaunay(p []r3.Vector, margin float64) (tets [][4]int, ok bool) {
	n := len(p)
	if n < 4 {
		return nil, true
	}
	lo, hi := p[0], p[0]
	for _, v := range p {
		lo = r3.Vector{X: math.Min(lo.X, v.X), Y: math.Min(lo.Y, v.Y), Z: math.Min(lo.Z, v.Z)}
		hi = r3.Vector{X: math.Max(hi.X, v.X), Y: math.Max(hi.Y, v.Y), Z: math.Max(hi.Z, v.Z)}
	}
	d := 1e6 * math.Max(hi.X-lo.X, math.Max(hi.Y-lo.Y, hi.Z-lo.Z))
	corner := func(x, y, z float64) r3.Vector {
		return r3.Vector{X: lo.X + d*x, Y: lo.Y + d*y, Z: lo.Z + d*z}
	}
	q := append(append([]r3.Vector(nil), p...), corner(1.1, 0.97, 1.03), corner(-0.93, -1.07, 1.01), corner(-1.05, 0.99, -0.91), corner(1.02, -1.09, -0.95))
	live := [][4]int{{n, n + 1, n + 2, n + 3}}
	for i := 0; i < n; i++ {
		faces := map[[3]int]int{}
		keep := live[:0]
		for _, t := range live {
			s, fine := InsideSphere(q[t[3]], q[t[2]], q[t[1]], q[t[0]], q[i]) // far corners first, which rounds less
			if !fine || s == 0 {
				return nil, false
			}
			if t[3] < n { // only points
				if _, m := SphereMargin(q[t[0]], q[t[1]], q[t[2]], q[t[3]], q[i]); m < margin {
					return nil, false
				}
			}
			if s < 0 {
				keep = append(keep, t)
				continue
			}
			faces[[3]int{t[0], t[1], t[2]}]++
			faces[[3]int{t[0], t[1], t[3]}]++
			faces[[3]int{t[0], t[2], t[3]}]++
			faces[[3]int{t[1], t[2], t[3]}]++
		}
		live = keep
		for f, k := range faces {
			if k == 1 {
				t := [4]int{f[0], f[1], f[2], i}
				sort.Ints(t[:])
				live = append(live, t)
			}
		}
	}
	for _, t := range live {
		if t[3] < n {
			tets = append(tets, t)
		}
	}
	return tets, true
}
