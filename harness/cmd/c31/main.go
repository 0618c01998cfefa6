// C31: the incremental tetrahedralisation is Delaunay.
package main

import (
	"sort"

	mesh "geGoMetry/meshing"
	"geGoMetry/r3"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

type Case struct{ P []r3.Vector }

func generalPosition(p []r3.Vector) bool {
	n := len(p)
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			for c := b + 1; c < n; c++ {
				for d := c + 1; d < n; d++ {
					if ex.OrientMargin(p[a], p[b], p[c], p[d]) < 1e-7 {
						return false
					}
				}
			}
		}
	}
	return true
}

func triple(a, b, c int) [3]int {
	t := [3]int{a, b, c}
	sort.Ints(t[:])
	return t
}

func check(c Case, r *pbt.R) {
	p := c.P
	n := len(p)
	if !generalPosition(p) {
		r.Label("not in general position")
		return
	}
	judge(p, r, func(a, b, d, e int) (empty, sure bool) {
		for q := 0; q < n; q++ {
			if q == a || q == b || q == d || q == e {
				continue
			}
			s, m := ex.SphereMargin(p[a], p[b], p[d], p[e], p[q])
			if m < 1e-10 {
				return false, false
			}
			if s > 0 {
				return false, true
			}
		}
		return true, true
	})
}

type Large struct{ gen.Scatter }

// checkLarge is check for larger seeded clouds, in which some quadruples are nearly flat: these must not
// be candidates for Delaunay tetrahedra.
func checkLarge(c Large, r *pbt.R) {
	p := c.Points()
	last := 0
	judge(p, r, func(a, b, d, e int) (empty, sure bool) {
		flat := ex.OrientMargin(p[a], p[b], p[d], p[e]) < 1e-9
		sure, inside, outside := true, false, false
		for k := -1; k < len(p); k++ {
			q := k
			if k < 0 {
				q = last
			}
			if q == a || q == b || q == d || q == e || k == last {
				continue
			}
			s, m := ex.SphereMargin(p[a], p[b], p[d], p[e], p[q])
			if m < 1e-9 {
				sure = false
				continue
			}
			if s > 0 {
				inside, last = true, q
			} else {
				outside = true
			}
			if inside && (!flat || outside) {
				return false, true
			}
		}
		return true, sure && !flat
	})
}

// checkVast is checkLarge with tetrahedra from a reference construction, for sets too large for brute force.
func checkVast(c Large, r *pbt.R) {
	p := c.Points()
	dt, ok := ex.Delaunay(p, 1e-12)
	if !ok {
		r.Label("nearly cospherical")
		return
	}
	compare(p, dt, r)
}

// judge compares the triangulation with the Delaunay tetrahedra; delaunay tells whether the sphere
// through four points is empty, and whether that is certain.
func judge(p []r3.Vector, r *pbt.R, delaunay func(a, b, d, e int) (empty, sure bool)) {
	n := len(p)
	// Reference: all tetrahedra with an empty circumsphere.
	var dt [][4]int
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			for d := b + 1; d < n; d++ {
				for e := d + 1; e < n; e++ {
					empty, sure := delaunay(a, b, d, e)
					if !sure {
						r.Label("nearly cospherical")
						return
					}
					if empty {
						dt = append(dt, [4]int{a, b, d, e})
					}
				}
			}
		}
	}
	compare(p, dt, r)
}

// compare compares the triangulation with the tetrahedra that have empty circumspheres.
func compare(p []r3.Vector, all [][4]int, r *pbt.R) {
	n := len(p)
	ext, sup := mesh.VerifEnglobe(append([]r3.Vector(nil), p...))
	type tet struct {
		v    [4]int
		kept bool // its circumsphere also avoids the enclosing tetrahedron's corners
	}
	var dt []tet
	faces := map[[3]int]bool{}
	for _, v := range all {
		t := tet{v, true}
		center, radius := ex.Circumsphere(p[v[0]], p[v[1]], p[v[2]], p[v[3]])
		for _, k := range sup {
			if r3.Distance(center, ext[k]) < radius*1.001 {
				t.kept = false
			}
		}
		dt = append(dt, t)
		for i := range t.v {
			faces[triple(t.v[(i+1)%4], t.v[(i+2)%4], t.v[(i+3)%4])] = true
		}
	}
	out := mesh.VerifBowyerWatson(append([]r3.Vector(nil), p...)...)
	if len(out)%3 != 0 {
		r.Failf("%d indices", len(out))
	}
	count := map[[3]int]int{}
	for i := 0; i < len(out); i += 3 {
		t := triple(out[i], out[i+1], out[i+2])
		if t[0] < 0 || t[2] >= n || t[0] == t[1] || t[1] == t[2] {
			r.Failf("triangle %v of %d points", out[i:i+3], n)
		}
		count[t]++
		if n > 3 && !faces[t] {
			r.Failf("triangle %v (%v %v %v) has no empty circumsphere among the %d points", t, p[t[0]], p[t[1]], p[t[2]], n)
		}
		if count[t] > 2 {
			r.Failf("triangle %v belongs to more than two tetrahedra", t)
		}
	}
	kept := 0
	need := map[[3]int]int{}
	for _, t := range dt {
		if !t.kept {
			continue
		}
		kept++
		for i := range t.v {
			need[triple(t.v[(i+1)%4], t.v[(i+2)%4], t.v[(i+3)%4])]++
		}
	}
	for f, k := range need {
		if count[f] < k {
			r.Failf("triangle %v of %d points bounds %d tetrahedra with empty circumspheres but appears %d times", f, n, k, count[f])
		}
	}
	r.NonTrivialIf(kept > 1)
	if n > 200 {
		r.Label("more than 200 points")
	} else if n <= 12 {
		r.Label("%d points", n)
	} else {
		r.Label("%d+ points", n/20*20)
	}
	if kept < len(dt) {
		r.Label("some spheres reach the enclosing corners")
	}
	if kept > 10 {
		r.Label("more than 10 tetrahedra")
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C31",
		Rule:        "0 to 11 points in general position and seeded clouds of up to 1200 points, copies of a cluster, rings around an axis, lattice points, uniform floats over four magnitudes, far clusters and elongated clouds; oracle: brute-force Delaunay tetrahedra from exact in-sphere tests (above 130 points, those of an exact reference construction): every produced triangle is a face of one, none more than twice, and each tetrahedron whose sphere avoids the enclosing corners contributes all its faces. Non-trivial: two such tetrahedra or more.",
		Assumptions: []string{"no four points coplanar within 1e-7, no five cospherical within 1e-10 (relative to the determinants' magnitude); duplicates and degenerate sets are left open", "faces next to the hull may be missing where a sphere reaches the enclosing tetrahedron, as usual for this construction"},
		Parts: []pbt.Part{
			pbt.P("delaunay", 18000, 300000, func(t *rapid.T) Case {
				n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 5, 6, 6, 7, 7, 8, 9, 10, 11}).Draw(t, "n")
				s := rapid.SampledFrom([]float64{0.01, 1, 10, 1e3}).Draw(t, "s")
				if rapid.IntRange(0, 3).Draw(t, "lattice") == 0 {
					var c Case
					m := rapid.SampledFrom([]int{2, 4, 10, 25}).Draw(t, "m")
					for i := 0; i < n; i++ {
						c.P = append(c.P, gen.IntVec(t, "p", m))
					}
					return c
				}
				var o r3.Vector
				f := r3.Vector{X: 1, Y: 1, Z: 1}
				switch rapid.IntRange(0, 4).Draw(t, "shape") {
				case 0:
					o = gen.Box(t, "o", -20*s, 20*s)
				case 1:
					f = r3.Vector{X: rapid.SampledFrom([]float64{1, 5, 0.2}).Draw(t, "fx"), Y: rapid.SampledFrom([]float64{1, 5, 0.2}).Draw(t, "fy"), Z: 1}
				}
				var c Case
				for i := 0; i < n; i++ {
					v := gen.Box(t, "p", -s, s)
					c.P = append(c.P, r3.Vector{X: o.X + f.X*v.X, Y: o.Y + f.Y*v.Y, Z: o.Z + f.Z*v.Z})
				}
				return c
			}, check),
			pbt.P("large", 180, 3000, func(t *rapid.T) Large { return Large{gen.Scatter{}.Draw(t, 12, 60)} }, checkLarge),
			pbt.P("largest", 8, 150, func(t *rapid.T) Large { return Large{gen.Scatter{}.Draw(t, 110, 130)} }, checkLarge),
			pbt.P("vast", 80, 800, func(t *rapid.T) Large { return Large{gen.Scatter{}.Draw(t, 300, 1200)} }, checkVast),
			pbt.P("ring", 240, 2400, func(t *rapid.T) Large {
				s := gen.Scatter{}.Draw(t, 104, 260)
				s.Shape = 6
				return Large{s}
			}, checkVast),
		},
	})
}
