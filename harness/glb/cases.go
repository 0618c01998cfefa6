package glb

import (
	"math"

	"geGoMetry/r3"
	"geGoMetry/shape"
	"verif/gen"

	"pgregory.net/rapid"
)

// Case is a mesh to export. Vertices and triangles beyond the drawn ones follow a formula, so
// that a large mesh is a small case.
type Case struct {
	V          []r3.Vector
	T          []uint32 // three corners each
	ExtraV     int
	ExtraT     int
	Normals    bool
	Shape      string
	Center     r3.Vector
	Radius     float64
	FileName   string
	Overwrites int // size of a file that is already there, 0 for none
}

// Mesh builds the mesh.
func (c Case) Mesh() shape.Mesh {
	switch c.Shape {
	case "circle":
		return shape.ConstructCircle(c.Center, c.Radius)
	case "ellipse":
		return shape.ConstructEllipse(c.Center, c.Radius, c.Radius/3)
	case "sphere":
		return shape.ConstructSphere(c.Center, c.Radius)
	case "torus":
		return shape.ConstructTorus(c.Center, c.Radius, c.Radius/4)
	}
	m := shape.Mesh{}
	m.Vertices = append(m.Vertices, c.V...)
	for i := 0; i < c.ExtraV; i++ {
		f := float64(i)
		m.Vertices = append(m.Vertices, r3.Vector{X: math.Sin(f) * 100, Y: f / 8, Z: -f})
	}
	m.Indices = append(m.Indices, c.T...)
	n := uint32(len(m.Vertices))
	for i := uint32(0); i < uint32(c.ExtraT); i++ {
		m.Indices = append(m.Indices, (n-1)-i%n, (i*7+1)%n, (i*31+2)%n)
	}
	if c.Normals {
		for range m.Vertices {
			m.Normals = append(m.Normals, [3]float64{0, 0, 1})
			m.TexCoords = append(m.TexCoords, [2]float64{0.5, 0.25})
		}
	}
	return m
}

// Draw draws a mesh.
func Draw(t *rapid.T) Case {
	c := Case{Normals: rapid.Bool().Draw(t, "normals")}
	c.FileName = rapid.SampledFrom([]string{"out.glb", "a b.glb", "mesh", "é.glb", "x.y.z.glb", "OUT.GLTF", "-o.glb", "100%d.glb"}).Draw(t, "file")
	if rapid.Bool().Draw(t, "exists") {
		c.Overwrites = rapid.SampledFrom([]int{1, 12, 1000, 5000, 300000}).Draw(t, "size")
	}
	kind := int(gen.Uniform(t, "kind", 0, 400))
	if kind >= 397 {
		c.Shape = rapid.SampledFrom([]string{"circle", "ellipse", "sphere", "torus"}).Draw(t, "shape")
		c.Center, c.Radius = gen.Vec(t, "center", -2, 3), math.Abs(gen.LogUniform(t, "radius", -2, 3))
		return c
	}
	lo, hi := -3, 4
	if rapid.IntRange(0, 3).Draw(t, "wide") == 0 {
		lo, hi = -44, 38
	}
	nv := rapid.IntRange(1, 14).Draw(t, "nv")
	for i := 0; i < nv; i++ {
		if i > 0 && rapid.IntRange(0, 9).Draw(t, "again") == 0 {
			c.V = append(c.V, c.V[rapid.IntRange(0, i-1).Draw(t, "which")])
			continue
		}
		c.V = append(c.V, gen.Vec(t, "v", lo, hi))
	}
	switch {
	case kind >= 395:
		c.ExtraV = 65536 - nv + rapid.IntRange(-2, 3).Draw(t, "around 65536")
		c.ExtraT = rapid.IntRange(0, 40).Draw(t, "extra triangles")
	case kind >= 350:
		c.ExtraV = 256 - nv + rapid.IntRange(-2, 3).Draw(t, "around 256")
		c.ExtraT = rapid.IntRange(0, 400).Draw(t, "extra triangles")
	case kind >= 250:
		c.ExtraV = rapid.IntRange(0, 3000).Draw(t, "extra")
		c.ExtraT = rapid.IntRange(0, 3000).Draw(t, "extra triangles")
	}
	n := nv + c.ExtraV
	nt := rapid.IntRange(1, 14).Draw(t, "nt")
	for i := 0; i < 3*nt; i++ {
		switch rapid.IntRange(0, 9).Draw(t, "corner") {
		case 0:
			c.T = append(c.T, uint32(n-1))
		default:
			c.T = append(c.T, uint32(rapid.IntRange(0, n-1).Draw(t, "i")))
		}
	}
	return c
}
