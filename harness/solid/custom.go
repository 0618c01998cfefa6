package solid

import (
	"math"
	"reflect"
	"unsafe"

	"geGoMetry/r3"
	"geGoMetry/shape"
)

// with sets the unexported fields of the struct that p points to; it is false when there are no such fields.
func with(p any, fields map[string]any) bool {
	v := reflect.ValueOf(p).Elem()
	for name, x := range fields {
		f := v.FieldByName(name)
		if !f.IsValid() || f.Type() != reflect.TypeOf(x) {
			return false
		}
		reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(x))
	}
	return true
}

// Sphere constructs a sphere of n sectors and m stacks, or of the default numbers when n is 0.
// custom is false when these could not be chosen.
func Sphere(c r3.Vector, rad float64, n, m int) (mesh shape.Mesh, custom bool) {
	var s shape.Sphere
	if n > 0 && with(&s, map[string]any{"center": c, "radius": rad, "sectorCount": n, "stackCount": m}) {
		return s.Construct(), true
	}
	return shape.ConstructSphere(c, rad), false
}

// Torus is the same for tori.
func Torus(c r3.Vector, rad, tube float64, n, m int) (mesh shape.Mesh, custom bool) {
	var s shape.Torus
	if n > 0 && with(&s, map[string]any{"center": c, "radius": rad, "tubeRadius": tube, "sectorCount": n, "stackCount": m}) {
		return s.Construct(), true
	}
	return shape.ConstructTorus(c, rad, tube), false
}

// Circle is the same for circles.
func Circle(c r3.Vector, rad float64, n int) (mesh shape.Mesh, custom bool) {
	var s shape.Circle
	if n > 0 && with(&s, map[string]any{"center": c, "radius": rad, "sectorCount": n}) {
		return s.Construct(), true
	}
	return shape.ConstructCircle(c, rad), false
}

// Ellipse is the same for ellipses.
func Ellipse(c r3.Vector, a, b float64, n int) (mesh shape.Mesh, custom bool) {
	var s shape.Ellipse
	if n > 0 && with(&s, map[string]any{"center": c, "semiAxis1": a, "semiAxis2": b, "sectorCount": n}) {
		return s.Construct(), true
	}
	return shape.ConstructEllipse(c, a, b), false
}

// Frusta is the volume of the polyhedron whose horizontal sections at the m+1 given heights are regular
// n-gons of the given circumradii: the least a mesh of n sectors and these stacks encloses.
func Frusta(n int, rad, z []float64) float64 {
	sum := 0.0
	for i := 0; i+1 < len(z); i++ {
		a, b := rad[i], rad[i+1]
		sum += (z[i] - z[i+1]) * (a*a + a*b + b*b) / 3
	}
	return sum * float64(n) / 2 * math.Sin(2*math.Pi/float64(n))
}

// Closed welds the vertices with equal keys and describes the first edge that is not shared by exactly
// two triangles running along it in opposite directions. Triangles flattened by the welding do not count.
// It returns the Euler characteristic of the surface otherwise.
func Closed[K comparable](m shape.Mesh, key func(i int) K) (problem string, euler int) {
	id := map[K]int{}
	w := make([]int, len(m.Vertices))
	for i := range m.Vertices {
		k := key(i)
		if _, ok := id[k]; !ok {
			id[k] = len(id)
		}
		w[i] = id[k]
	}
	edges := map[[2]int]int{}
	used := map[int]bool{}
	faces := 0
	for i := 0; i+2 < len(m.Indices); i += 3 {
		a, b, c := w[m.Indices[i]], w[m.Indices[i+1]], w[m.Indices[i+2]]
		if a == b || b == c || c == a {
			continue
		}
		faces++
		for _, e := range [][2]int{{a, b}, {b, c}, {c, a}} {
			edges[e]++
			used[e[0]] = true
		}
	}
	for e, k := range edges {
		if k != 1 || edges[[2]int{e[1], e[0]}] != 1 {
			return "the surface is not closed and turned one way", 0
		}
	}
	if len(used) != len(id) {
		return "a vertex belongs to no triangle", 0
	}
	return "", len(used) - len(edges)/2 + faces
}
