// C17: circle and ellipse meshes.
package main

import (
	"math"
	"sort"

	"geGoMetry/r3"
	"geGoMetry/shape"
	"verif/gen"
	"verif/pbt"
	"verif/solid"

	"pgregory.net/rapid"
)

type Case struct {
	C      r3.Vector
	A, B   float64
	Circle bool
	N      int // sectors, 0 for the default
}

func check(c Case, r *pbt.R) {
	r.NonTrivial()
	var m shape.Mesh
	custom := false
	if c.Circle {
		r.Label("circle")
		m, custom = solid.Circle(c.C, c.A, c.N)
		c.B = c.A
	} else {
		r.Label("ellipse")
		m, custom = solid.Ellipse(c.C, c.A, c.B, c.N)
	}
	if custom {
		r.Label("chosen number of sectors")
	}
	if s := solid.Sound(m); s != "" {
		r.Failf("%s: %d vertices, %d indices", s, len(m.Vertices), len(m.Indices))
	}
	// Rounding of the centre's coordinates relative to the axes.
	big := math.Max(math.Abs(c.C.X), math.Max(math.Abs(c.C.Y), math.Abs(c.C.Z)))
	tol := 1e-12 + 4e-16*big/math.Min(c.A, c.B)
	type rim struct {
		angle float64
		i     int
	}
	var ring []rim
	centers := 0
	for i, v := range m.Vertices {
		x, y := (v.X-c.C.X)/c.A, (v.Y-c.C.Y)/c.B
		if math.Abs(v.Z-c.C.Z) > 1e-12*big {
			r.Failf("vertex %d at height %v of a figure at %v", i, v.Z, c.C.Z)
		}
		rad := math.Hypot(x, y)
		switch {
		case rad < 0.5 && rad <= tol:
			centers++
		case math.Abs(rad-1) <= tol:
			ring = append(ring, rim{math.Atan2(y, x), i})
		default:
			r.Failf("vertex %d %v is neither the centre nor on the curve", i, v)
		}
	}
	n := len(ring)
	if centers != 1 || n < 3 {
		r.Failf("%d centres and %d rim vertices", centers, n)
	}
	if custom && n != c.N {
		r.Failf("%d rim vertices for %d sectors", n, c.N)
	}
	sort.Slice(ring, func(i, j int) bool { return ring[i].angle < ring[j].angle })
	pos := map[uint32]int{}
	for k, q := range ring {
		pos[uint32(q.i)] = k
		next := ring[(k+1)%n].angle
		if k == n-1 {
			next += 2 * math.Pi
		}
		if gap := next - q.angle; math.Abs(gap-2*math.Pi/float64(n)) > 1e-9+4*tol {
			r.Failf("rim vertices %v apart, %d of them should be %v apart", gap, n, 2*math.Pi/float64(n))
		}
	}
	// Each sector is covered once from either side.
	up, down := make([]int, n), make([]int, n)
	for i := 0; i < len(m.Indices); i += 3 {
		t := [3]uint32{m.Indices[i], m.Indices[i+1], m.Indices[i+2]}
		for k := 0; k < 3; k++ {
			if _, onRim := pos[t[0]]; !onRim {
				break
			}
			t = [3]uint32{t[1], t[2], t[0]}
		}
		p, ok1 := pos[t[1]]
		q, ok2 := pos[t[2]]
		if _, onRim := pos[t[0]]; onRim || !ok1 || !ok2 {
			r.Failf("triangle %v does not join the centre with two rim vertices", m.Indices[i:i+3])
		}
		switch {
		case (p+1)%n == q:
			up[p]++
		case (q+1)%n == p:
			down[q]++
		default:
			r.Failf("triangle %v joins rim vertices that are not neighbours", m.Indices[i:i+3])
		}
	}
	for k := range up {
		if up[k] != 1 || down[k] != 1 {
			r.Failf("sector %d of %d is covered %d times from above and %d times from below", k, n, up[k], down[k])
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C17",
		Rule:        "circles and ellipses of centres up to 1e5 and axes 1e-4..1e4, with the default and with 3..257, some up to 3000 sectors, also very flat ellipses, and all of these 2^-60..2^60 times as large; oracle: one centre, rim vertices on the curve and evenly spaced in parameter, each sector covered exactly once in each winding, indices in range. Every case is non-trivial.",
		Assumptions: []string{"positive axes"},
		Parts: []pbt.Part{
			pbt.P("disc", 600000, 3000000, func(t *rapid.T) Case {
				c := Case{C: gen.Vec(t, "c", -2, 5), Circle: rapid.Bool().Draw(t, "circle")}
				axis := func(l string) float64 {
					if rapid.Bool().Draw(t, l+".simple") {
						return float64(rapid.IntRange(1, 20).Draw(t, l))
					}
					return math.Abs(gen.LogUniform(t, l, -4, 4))
				}
				c.A = axis("a")
				c.B = axis("b")
				if rapid.IntRange(0, 2).Draw(t, "sectors") > 0 {
					c.N = rapid.SampledFrom([]int{3, 4, 5, 6, 7, 8, 12, 33, 100, 255, 257}).Draw(t, "n")
					switch rapid.IntRange(0, 60).Draw(t, "any") {
					case 0, 1, 2, 3, 4, 5, 6, 7:
						c.N = rapid.IntRange(3, 130).Draw(t, "any n")
					case 60:
						c.N = rapid.IntRange(130, 3000).Draw(t, "many")
					}
				}
				f := gen.Power(t, -60, 60) // the whole figure larger or smaller
				c.C, c.A, c.B = c.C.Scaled(f), c.A*f, c.B*f
				return c
			}, check),
		},
	})
}
