// C18: sphere meshes.
package main

import (
	"math"

	"geGoMetry/r3"
	"verif/gen"
	"verif/pbt"
	"verif/solid"

	"pgregory.net/rapid"
)

type Case struct {
	C    r3.Vector
	R    float64
	In   r3.Vector // a point of the unit ball, probed for being inside
	Away r3.Vector // a direction, probed outside
	N, M int       // sectors and stacks, 0 for the defaults
}

func check(c Case, r *pbt.R) {
	r.NonTrivial()
	m, custom := solid.Sphere(c.C, c.R, c.N, c.M)
	share, few := 1.0, false // how far inner points may be from the centre
	if custom {
		r.Label("chosen numbers of sectors and stacks")
		share, few = 0.4, c.N < 12 || c.M < 12
	}
	if s := solid.Sound(m); s != "" {
		r.Failf("%s: %d vertices, %d indices", s, len(m.Vertices), len(m.Indices))
	}
	if len(m.Vertices) < 5 || len(m.Indices) < 18 {
		r.Failf("only %d vertices, %d indices", len(m.Vertices), len(m.Indices))
	}
	if len(m.Normals) != len(m.Vertices) || len(m.TexCoords) != len(m.Vertices) {
		r.Failf("%d vertices, %d normals, %d texture coordinates", len(m.Vertices), len(m.Normals), len(m.TexCoords))
	}
	big := math.Max(math.Abs(c.C.X), math.Max(math.Abs(c.C.Y), math.Abs(c.C.Z)))
	tol := 1e-12 + 4e-16*big/c.R
	for i, v := range m.Vertices {
		d := r3.Vector{X: (v.X - c.C.X) / c.R, Y: (v.Y - c.C.Y) / c.R, Z: (v.Z - c.C.Z) / c.R}
		if !(math.Abs(solid.Norm(d)-1) <= tol) {
			r.Failf("vertex %d %v is %v radii from the centre", i, v, solid.Norm(d))
		}
		n := m.Normals[i]
		if e := math.Max(math.Abs(n[0]-d.X), math.Max(math.Abs(n[1]-d.Y), math.Abs(n[2]-d.Z))); !(e <= tol) {
			r.Failf("vertex %d has normal %v, direction from the centre %v", i, n, d)
		}
		// Texture coordinates are longitude and colatitude, scaled to the unit square.
		s, t := m.TexCoords[i][0], m.TexCoords[i][1]
		if !(s >= 0 && s <= 1 && t >= 0 && t <= 1) {
			r.Failf("vertex %d has texture coordinates %v", i, m.TexCoords[i])
		}
		p := r3.Vector{X: math.Sin(math.Pi*t) * math.Cos(2*math.Pi*s), Y: math.Sin(math.Pi*t) * math.Sin(2*math.Pi*s), Z: math.Cos(math.Pi * t)}
		if solid.Norm(solid.Sub(p, d)) > 1e-9+4*tol {
			r.Failf("vertex %d in direction %v has texture coordinates (%v, %v)", i, d, s, t)
		}
	}
	in := r3.Vector{X: c.C.X + share*c.R*c.In.X, Y: c.C.Y + share*c.R*c.In.Y, Z: c.C.Z + share*c.R*c.In.Z}
	if w := solid.Winding(m, in); !(math.Abs(w-1) < 1e-8+20*tol) {
		r.Failf("the surface winds %v times around the inner point %v: it is not closed and outward", w, in)
	}
	out := r3.Vector{X: c.C.X + c.R*c.Away.X, Y: c.C.Y + c.R*c.Away.Y, Z: c.C.Z + c.R*c.Away.Z}
	if w := solid.Winding(m, out); !(math.Abs(w) < 1e-8+20*tol) {
		r.Failf("the surface winds %v times around the outer point %v", w, out)
	}
	want := 4 * math.Pi / 3 * c.R * c.R * c.R
	least := 0.9 * want
	if custom {
		var rad, z []float64
		for i := 0; i <= c.M; i++ {
			a := math.Pi * float64(i) / float64(c.M)
			rad, z = append(rad, c.R*math.Sin(a)), append(z, c.R*math.Cos(a))
		}
		least = solid.Frusta(c.N, rad, z)
	}
	if v := solid.Volume(m, c.C); !(v < want*(1+1e-9) && v > least*(1-1e-6)-100*tol*want) {
		r.Failf("the mesh encloses a volume of %v, the sphere has %v", v, want)
	}
	s, euler := solid.Closed(m, func(i int) [2]int {
		s, t := math.Round(m.TexCoords[i][0]*1e7), math.Round(m.TexCoords[i][1]*1e7)
		if t == 0 || t == 1e7 || s == 1e7 {
			s = 0
		}
		return [2]int{int(s), int(t)}
	})
	if s != "" {
		r.Failf("%s", s)
	}
	if euler != 2 {
		r.Failf("the surface has Euler characteristic %d", euler)
	}
	// A texture is not torn: within a triangle the longitude does not jump at the seam. The poles have none.
	for i := 0; i < len(m.Indices); i += 3 {
		lo, hi := 2.0, -1.0
		for _, k := range m.Indices[i : i+3] {
			if c := m.TexCoords[k]; c[1] > 1e-9 && c[1] < 1-1e-9 {
				lo, hi = math.Min(lo, c[0]), math.Max(hi, c[0])
			}
		}
		if hi-lo > 0.6 {
			r.Failf("triangle %v spans texture coordinates from %v to %v", m.Indices[i:i+3], lo, hi)
		}
	}
	// Facets close to the sphere: no triangle cuts deep.
	for i := 0; i < len(m.Indices); i += 3 {
		a, b, d := m.Vertices[m.Indices[i]], m.Vertices[m.Indices[i+1]], m.Vertices[m.Indices[i+2]]
		mid := r3.Vector{X: (a.X+b.X+d.X)/3 - c.C.X, Y: (a.Y+b.Y+d.Y)/3 - c.C.Y, Z: (a.Z+b.Z+d.Z)/3 - c.C.Z}
		if !few && solid.Norm(mid) < 0.9*c.R {
			r.Failf("triangle %v runs through the inside of the sphere", m.Indices[i:i+3])
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C18",
		Rule:        "spheres of radius 1e-4..1e4 and centres up to 1e5; oracle: every vertex on the sphere, unit normals pointing away from the centre, texture coordinates reproducing the vertex and not jumping within a triangle, the surface winding once around a generated inner point and not at all around an outer one (solid angle sum), every edge shared by two triangles in opposite directions, Euler characteristic 2, volume between the exact one of the facets and that of the sphere; at the default resolution and with 3..20 sectors and 2..20 stacks, some 3..130 and 2..130; all of these 2^-60..2^60 times as large. Every case is non-trivial.",
		Assumptions: []string{"positive radius, the centre at most 1e7 radii from the origin"},
		Parts: []pbt.Part{
			pbt.P("sphere", 120, 5000, func(t *rapid.T) Case { return draw(t, false) }, check),
			pbt.P("coarse", 20000, 600000, func(t *rapid.T) Case { return draw(t, true) }, check),
			pbt.P("medium", 800, 10000, func(t *rapid.T) Case {
				c := draw(t, true)
				c.N, c.M = rapid.IntRange(3, 130).Draw(t, "sectors"), rapid.IntRange(2, 130).Draw(t, "stacks")
				return c
			}, check),
		},
	})
}

func draw(t *rapid.T, small bool) Case {
	c := Case{C: gen.Vec(t, "c", -2, 3), R: float64(rapid.IntRange(1, 20).Draw(t, "r"))}
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		c.R = math.Abs(gen.LogUniform(t, "r", -4, 4))
	case 1:
		c.C = r3.Vector{}
	case 2:
		c.C = gen.Vec(t, "c", 0, 5)
	}
	c.In = gen.Box(t, "in", -0.5, 0.5)
	d := gen.Box(t, "out", 0.8, 3)
	if rapid.Bool().Draw(t, "neg") {
		d = r3.Vector{X: -d.X, Y: d.Y, Z: -d.Z}
	}
	c.Away = d
	f := gen.Power(t, -60, 60) // the whole sphere larger or smaller
	c.C, c.R = c.C.Scaled(f), c.R*f
	if small {
		c.N, c.M = rapid.IntRange(3, 20).Draw(t, "n"), rapid.IntRange(2, 20).Draw(t, "m")
	}
	return c
}
