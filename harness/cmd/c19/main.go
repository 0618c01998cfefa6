// C19: torus meshes.
package main

import (
	"math"

	"geGoMetry/r3"
	"verif/gen"
	"verif/pbt"
	"verif/solid"

	"pgregory.net/rapid"
)

type Case struct {
	C        r3.Vector
	R, Tube  float64
	Phi, Psi float64 // where the inner probe sits, in turns
	N, M     int     // sectors and stacks, 0 for the defaults
	Depth    float64 // its distance from the tube's middle, in tube radii
}

func check(c Case, r *pbt.R) {
	r.NonTrivial()
	m, custom := solid.Torus(c.C, c.R, c.Tube, c.N, c.M)
	if custom {
		r.Label("chosen numbers of sectors and stacks")
	}
	if s := solid.Sound(m); s != "" {
		r.Failf("%s: %d vertices, %d indices", s, len(m.Vertices), len(m.Indices))
	}
	if len(m.Vertices) < 9 || len(m.Indices) < 54 {
		r.Failf("only %d vertices, %d indices", len(m.Vertices), len(m.Indices))
	}
	if len(m.Normals) != len(m.Vertices) || len(m.TexCoords) != len(m.Vertices) {
		r.Failf("%d vertices, %d normals, %d texture coordinates", len(m.Vertices), len(m.Normals), len(m.TexCoords))
	}
	big := math.Max(math.Abs(c.C.X), math.Max(math.Abs(c.C.Y), math.Abs(c.C.Z)))
	tol := 1e-12 + 4e-16*(big+c.R)/c.Tube
	at := func(phi, psi, rho float64) r3.Vector { // phi around the axis, psi up from the outer rim, rho from the tube's middle
		w := c.R + rho*math.Cos(psi)
		return r3.Vector{X: c.C.X + w*math.Cos(phi), Y: c.C.Y + w*math.Sin(phi), Z: c.C.Z + rho*math.Sin(psi)}
	}
	for i, v := range m.Vertices {
		d := solid.Sub(v, c.C)
		w := math.Hypot(d.X, d.Y)
		if rho := math.Hypot(w-c.R, d.Z) / c.Tube; !(math.Abs(rho-1) <= 8*tol) {
			r.Failf("vertex %d %v is %v tube radii from the middle of the tube", i, v, rho)
		}
		s, t := m.TexCoords[i][0], m.TexCoords[i][1]
		if !(s >= 0 && s <= 1 && t >= 0 && t <= 1) {
			r.Failf("vertex %d has texture coordinates %v", i, m.TexCoords[i])
		}
		psi := math.Pi/2 - 2*math.Pi*t
		if p := at(2*math.Pi*s, psi, c.Tube); solid.Norm(solid.Sub(p, v)) > (1e-9+8*tol)*(c.R+c.Tube) {
			r.Failf("vertex %d %v has texture coordinates (%v, %v), which denote %v", i, v, s, t, p)
		}
		n := m.Normals[i]
		want := [3]float64{math.Cos(psi) * math.Cos(2*math.Pi*s), math.Cos(psi) * math.Sin(2*math.Pi*s), math.Sin(psi)}
		if e := math.Max(math.Abs(n[0]-want[0]), math.Max(math.Abs(n[1]-want[1]), math.Abs(n[2]-want[2]))); !(e <= 1e-9+8*tol) {
			r.Failf("vertex %d has normal %v, the surface has %v there", i, n, want)
		}
	}
	phi, depth := c.Phi, c.Depth*c.Tube
	if custom { // in the plane of a ring of vertices, whose corners lie on the tube
		phi = math.Floor(phi*float64(c.N)) / float64(c.N)
		depth *= math.Cos(math.Pi / float64(c.M))
	}
	in := at(2*math.Pi*phi, 2*math.Pi*c.Psi, depth)
	if w := solid.Winding(m, in); !(math.Abs(w-1) < 1e-7+50*tol) {
		r.Failf("the surface winds %v times around the inner point %v: it is not closed and outward", w, in)
	}
	if w := solid.Winding(m, c.C); !(math.Abs(w) < 1e-7+50*tol) {
		r.Failf("the surface winds %v times around the middle of the hole", w)
	}
	out := at(2*math.Pi*c.Phi, 2*math.Pi*c.Psi, 0)
	out.Z += 1.5 * c.Tube
	if w := solid.Winding(m, out); !(math.Abs(w) < 1e-7+50*tol) {
		r.Failf("the surface winds %v times around the outer point %v", w, out)
	}
	s, euler := solid.Closed(m, func(i int) [2]int {
		return [2]int{int(math.Round(m.TexCoords[i][0]*1e7)) % 1e7, int(math.Round(m.TexCoords[i][1]*1e7)) % 1e7}
	})
	if s != "" {
		r.Failf("%s", s)
	}
	if euler != 0 {
		r.Failf("the surface has Euler characteristic %d", euler)
	}
	// A texture is not torn: within a triangle neither coordinate jumps at a seam.
	for i := 0; i < len(m.Indices); i += 3 {
		for k := 0; k < 2; k++ {
			x, y, z := m.TexCoords[m.Indices[i]][k], m.TexCoords[m.Indices[i+1]][k], m.TexCoords[m.Indices[i+2]][k]
			if math.Max(x, math.Max(y, z))-math.Min(x, math.Min(y, z)) > 0.6 {
				r.Failf("triangle %v has texture coordinates %v, %v, %v", m.Indices[i:i+3], x, y, z)
			}
		}
	}
	want := 2 * math.Pi * math.Pi * c.R * c.Tube * c.Tube
	least := 0.9 * want
	if custom {
		var rad, z []float64
		for i := 0; i <= c.M; i++ {
			a := math.Pi/2 - 2*math.Pi*float64(i)/float64(c.M)
			rad, z = append(rad, c.R+c.Tube*math.Cos(a)), append(z, c.Tube*math.Sin(a))
		}
		least = solid.Frusta(c.N, rad, z)
	}
	if v := solid.Volume(m, c.C); !(v < want*(1+1e-6) && v > least*(1-1e-5)-100*tol*want) {
		r.Failf("the mesh encloses a volume of %v, the torus has %v", v, want)
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C19",
		Rule:        "ring tori of radius 1e-3..1e3, tube 0.02..0.95 of it (of coarse tori also down to 1e-5) and centres up to 1e4; oracle: every vertex on the torus at the parameters its texture coordinates denote, which do not jump within a triangle, the exact surface normal there, winding number 1 around a generated point of the tube, 0 in the hole and above (solid angle sums), every edge shared by two triangles in opposite directions, Euler characteristic 0, volume between the exact one of the facets and that of the torus; at the default resolution and with 3..20, some up to 130 sectors and stacks; all of these 2^-60..2^60 times as large. Every case is non-trivial.",
		Assumptions: []string{"0 < tube radius < radius"},
		Parts: []pbt.Part{
			pbt.P("torus", 900, 10000, func(t *rapid.T) Case { return draw(t, false) }, check),
			pbt.P("coarse", 60000, 600000, func(t *rapid.T) Case { return draw(t, true) }, check),
			pbt.P("medium", 800, 10000, func(t *rapid.T) Case {
				c := draw(t, true)
				c.N, c.M = rapid.IntRange(3, 130).Draw(t, "sectors"), rapid.IntRange(3, 130).Draw(t, "stacks")
				return c
			}, check),
		},
	})
}

func draw(t *rapid.T, small bool) Case {
	c := Case{R: float64(rapid.IntRange(1, 20).Draw(t, "r"))}
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		c.R = math.Abs(gen.LogUniform(t, "r", -3, 3))
	case 1:
		c.C = gen.Vec(t, "c", 0, 4)
	case 2:
		c.C = gen.IntVec(t, "c", 30)
	}
	c.Tube = c.R * gen.Uniform(t, "tube", 0.02, 0.95)
	if small && rapid.IntRange(0, 5).Draw(t, "thin") == 5 { // as a wire
		c.Tube = c.R * math.Abs(gen.LogUniform(t, "tube", -5, -2))
	}
	c.Phi, c.Psi = gen.Uniform(t, "phi", 0, 1), gen.Uniform(t, "psi", 0, 1)
	c.Depth = gen.Uniform(t, "depth", 0, 0.7)
	f := gen.Power(t, -60, 60) // the whole torus larger or smaller
	c.C, c.R, c.Tube = c.C.Scaled(f), c.R*f, c.Tube*f
	if small {
		c.N, c.M = rapid.IntRange(3, 20).Draw(t, "n"), rapid.IntRange(3, 20).Draw(t, "m")
	}
	return c
}
