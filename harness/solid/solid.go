// Package solid measures triangle meshes.
package solid

import (
	"math"

	"geGoMetry/r3"
	"geGoMetry/shape"
)

func Sub(a, b r3.Vector) r3.Vector { return r3.Vector{X: a.X - b.X, Y: a.Y - b.Y, Z: a.Z - b.Z} }
func Dot(a, b r3.Vector) float64   { return a.X*b.X + a.Y*b.Y + a.Z*b.Z }
func Cross(a, b r3.Vector) r3.Vector {
	return r3.Vector{X: a.Y*b.Z - a.Z*b.Y, Y: a.Z*b.X - a.X*b.Z, Z: a.X*b.Y - a.Y*b.X}
}
func Norm(a r3.Vector) float64 { return math.Sqrt(Dot(a, a)) }

// Winding is the number of times the mesh winds around p: 1 inside a closed outward surface, 0 outside.
func Winding(m shape.Mesh, p r3.Vector) float64 {
	sum := 0.0
	for i := 0; i+2 < len(m.Indices); i += 3 {
		a, b, c := Sub(m.Vertices[m.Indices[i]], p), Sub(m.Vertices[m.Indices[i+1]], p), Sub(m.Vertices[m.Indices[i+2]], p)
		la, lb, lc := Norm(a), Norm(b), Norm(c)
		sum += math.Atan2(Dot(a, Cross(b, c)), la*lb*lc+Dot(a, b)*lc+Dot(b, c)*la+Dot(c, a)*lb)
	}
	return sum / (2 * math.Pi)
}

// Volume is the signed volume enclosed by the mesh, measured from p.
func Volume(m shape.Mesh, p r3.Vector) float64 {
	sum := 0.0
	for i := 0; i+2 < len(m.Indices); i += 3 {
		a, b, c := Sub(m.Vertices[m.Indices[i]], p), Sub(m.Vertices[m.Indices[i+1]], p), Sub(m.Vertices[m.Indices[i+2]], p)
		sum += Dot(a, Cross(b, c))
	}
	return sum / 6
}

// Sound reports the first index problem.
func Sound(m shape.Mesh) string {
	if len(m.Indices)%3 != 0 {
		return "the number of indices is no multiple of three"
	}
	for _, i := range m.Indices {
		if int(i) >= len(m.Vertices) {
			return "an index is out of range"
		}
	}
	for i := 0; i+2 < len(m.Indices); i += 3 {
		if m.Indices[i] == m.Indices[i+1] || m.Indices[i+1] == m.Indices[i+2] || m.Indices[i] == m.Indices[i+2] {
			return "a triangle repeats a vertex"
		}
	}
	return ""
}
