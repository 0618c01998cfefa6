// Package plane generates planar point sets and judges triangulations of them.
package plane

import (
	"fmt"
	"math"
	"sort"

	"geGoMetry/r3"
	tri "geGoMetry/triangulate2"
	ex "verif/exact"
	"verif/gen"

	"pgregory.net/rapid"
)

// Case is a point set. Exact tells that all coordinates are integers small enough for the
// orientation and in-circle determinants to be exact in doubles.
type Case struct {
	P     []r3.Vector
	Exact bool
	Kind  string
}

// Points draws a point set; maxN bounds its size.
func Points(t *rapid.T, maxN int) Case {
	var c Case
	lo := rapid.SampledFrom([]int{0, 1, 3, 4, 5, 8, 12, 30}).Draw(t, "atleast")
	if lo > maxN {
		lo = maxN
	}
	if maxN > 60 && rapid.IntRange(0, 9).Draw(t, "big") == 0 {
		lo = maxN / 2
	}
	slice := func(f func(t *rapid.T) r3.Vector) []r3.Vector {
		return rapid.SliceOfN(rapid.Custom(f), lo, maxN).Draw(t, "p")
	}
	kinds := []string{"int", "int", "grid", "line+", "circle", "clusters", "float", "float", "jitter", "moment", "star"}
	c.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
	switch c.Kind {
	case "int":
		m := rapid.SampledFrom([]int{1, 2, 4, 10, 100, 1000}).Draw(t, "m")
		g := rapid.IntRange(-m, m)
		c.P = slice(func(t *rapid.T) r3.Vector { return r3.Vector{X: float64(g.Draw(t, "x")), Y: float64(g.Draw(t, "y"))} })
	case "grid": // a block of the lattice, drawn with repetition so that some points are missing or double
		w, h := rapid.IntRange(1, 6).Draw(t, "w"), rapid.IntRange(1, 6).Draw(t, "h")
		s := rapid.IntRange(1, 5).Draw(t, "s")
		if rapid.Bool().Draw(t, "full") {
			for i := 0; i <= w; i++ {
				for j := 0; j <= h; j++ {
					c.P = append(c.P, r3.Vector{X: float64(i * s), Y: float64(j * s)})
				}
			}
			c.P = rapid.Permutation(c.P).Draw(t, "order")
		} else {
			c.P = slice(func(t *rapid.T) r3.Vector {
				return r3.Vector{X: float64(s * rapid.IntRange(0, w).Draw(t, "x")), Y: float64(s * rapid.IntRange(0, h).Draw(t, "y"))}
			})
		}
	case "line+": // points of one line, and perhaps a few off it
		d := gen.IntVec(t, "d", 4)
		o := gen.IntVec(t, "o", 20)
		off := rapid.IntRange(0, 2).Draw(t, "off")
		c.P = slice(func(t *rapid.T) r3.Vector {
			k := float64(rapid.IntRange(-12, 12).Draw(t, "k"))
			p := r3.Vector{X: o.X + k*d.X, Y: o.Y + k*d.Y}
			if off > 0 && rapid.IntRange(0, 9).Draw(t, "off") < off {
				p.X += float64(rapid.IntRange(-5, 5).Draw(t, "dx"))
				p.Y += float64(rapid.IntRange(-5, 5).Draw(t, "dy"))
			}
			return p
		})
	case "circle": // integer points of a few concentric circles
		o := gen.IntVec(t, "o", 30)
		v := [][2]float64{{3, 4}, {5, 0}, {7, 24}, {15, 20}, {25, 0}, {16, 63}, {33, 56}, {65, 0}, {25, 60}, {39, 52}, {0, 0}}
		k := rapid.SampledFrom([]int{2, 5, 10, 11}).Draw(t, "rings")
		c.P = slice(func(t *rapid.T) r3.Vector {
			w := v[rapid.IntRange(0, k-1).Draw(t, "w")]
			q := rapid.IntRange(0, 7).Draw(t, "q")
			x, y := w[0], w[1]
			if q&1 != 0 {
				x = -x
			}
			if q&2 != 0 {
				y = -y
			}
			if q&4 != 0 {
				x, y = y, x
			}
			return r3.Vector{X: o.X + x, Y: o.Y + y}
		})
	case "clusters":
		far := rapid.IntRange(50, 900).Draw(t, "far")
		c.P = slice(func(t *rapid.T) r3.Vector {
			q := rapid.IntRange(0, 3).Draw(t, "q")
			p := r3.Vector{X: float64(rapid.IntRange(-4, 4).Draw(t, "x")), Y: float64(rapid.IntRange(-4, 4).Draw(t, "y"))}
			p.X += float64(q % 2 * far)
			p.Y += float64(q / 2 * far)
			return p
		})
	case "moment": // convex position on a parabola, hardly any point inside
		c.P = slice(func(t *rapid.T) r3.Vector {
			k := float64(rapid.IntRange(-30, 30).Draw(t, "k"))
			return r3.Vector{X: k, Y: k*k + float64(rapid.IntRange(0, 1).Draw(t, "up"))}
		})
	case "star": // points on four rays, so that many triples are collinear and hulls are small
		c.P = slice(func(t *rapid.T) r3.Vector {
			k := float64(rapid.IntRange(0, 40).Draw(t, "k"))
			d := [][2]float64{{1, 0}, {0, 1}, {-1, -1}, {-2, 1}}[rapid.IntRange(0, 3).Draw(t, "ray")]
			return r3.Vector{X: k * d[0], Y: k * d[1]}
		})
	case "float":
		s := rapid.SampledFrom([]float64{1, 1, 1e-2, 1e-4, 30, 1e3, 1e5, 1e9, 1e18}).Draw(t, "s")
		o := rapid.SampledFrom([]float64{0, 0, 10, -1000}).Draw(t, "o") * s
		c.P = slice(func(t *rapid.T) r3.Vector {
			v := gen.Box(t, "p", o-s, o+s)
			return r3.Vector{X: snap(v.X, s), Y: snap(v.Y, s)}
		})
	case "jitter": // a lattice with every point moved by up to a third of the spacing
		w := rapid.IntRange(2, 7).Draw(t, "w")
		c.P = slice(func(t *rapid.T) r3.Vector {
			v := gen.Box(t, "p", -0.33, 0.33)
			return r3.Vector{X: snap(v.X+float64(rapid.IntRange(0, w).Draw(t, "i")), 1), Y: snap(v.Y+float64(rapid.IntRange(0, w).Draw(t, "j")), 1)}
		})
	}
	c.Exact = c.Kind != "float" && c.Kind != "jitter"
	if c.Exact && rapid.IntRange(0, 5).Draw(t, "shift") == 0 {
		o := gen.IntVec(t, "shift", 2000)
		for i := range c.P {
			c.P[i].X += o.X
			c.P[i].Y += o.Y
		}
	}
	if c.Exact && rapid.IntRange(0, 9).Draw(t, "stretch") == 0 && within(c.P, 32) {
		f := math.Ldexp(1, rapid.IntRange(1, 5).Draw(t, "stretch exp"))
		if rapid.Bool().Draw(t, "stretch y") {
			for i := range c.P {
				c.P[i].Y *= f
			}
		} else {
			for i := range c.P {
				c.P[i].X *= f
			}
		}
	}
	if c.Exact && rapid.IntRange(0, 5).Draw(t, "pow") == 0 { // scaling by a power of two keeps determinants exact
		e := rapid.IntRange(-20, 10).Draw(t, "exp")
		if rapid.IntRange(0, 2).Draw(t, "large") == 0 {
			e = rapid.IntRange(10, 80).Draw(t, "exp")
		}
		f := math.Ldexp(1, e)
		for i := range c.P {
			c.P[i].X *= f
			c.P[i].Y *= f
		}
	}
	if len(c.P) > 0 && rapid.IntRange(0, 3).Draw(t, "dups") == 0 {
		for k := rapid.IntRange(1, 3).Draw(t, "ndup"); k > 0; k-- {
			c.P = append(c.P, c.P[rapid.IntRange(0, len(c.P)-1).Draw(t, "dup")])
		}
	}
	gen.Arrange(c.P, gen.DrawOrder(t))
	if rapid.IntRange(0, 3).Draw(t, "heights") == 0 {
		for i := range c.P {
			c.P[i].Z = gen.Scalar(t, "z", -2, 4)
		}
	}
	return c
}

// within tells that no coordinate exceeds m.
func within(p []r3.Vector, m float64) bool {
	for _, v := range p {
		if math.Abs(v.X) > m || math.Abs(v.Y) > m {
			return false
		}
	}
	return true
}

// snap keeps distinct points well above the library's absolute duplicate distance of 1.5e-8 apart.
func snap(x, s float64) float64 {
	q := math.Max(s*1e-5, 1e-7)
	return math.Round(x/q) * q
}

// Sliver tells that a triangle's orientation is a matter of rounding, relative to the extent of its set.
func Sliver(a, b, c r3.Vector, ext float64) bool {
	return math.Abs((b.X-a.X)*(c.Y-a.Y)-(b.Y-a.Y)*(c.X-a.X)) < 1e-9*ext*ext
}

// Key is a position in the plane.
type Key [2]float64

func At(p r3.Vector) Key { return Key{p.X + 0, p.Y + 0} }

// Distinct returns the distinct positions.
func Distinct(p []r3.Vector) map[Key]bool {
	m := map[Key]bool{}
	for _, v := range p {
		m[At(v)] = true
	}
	return m
}

// Flat tells whether all points lie on one line (exactly).
func Flat(p []r3.Vector) bool {
	for i := 1; i < len(p); i++ {
		if At(p[i]) != At(p[0]) {
			for j := 1; j < len(p); j++ {
				if ex.Orient2(p[0], p[i], p[j]) != 0 {
					return false
				}
			}
			return true
		}
	}
	return true
}

// Thin is the width of the point set relative to its diameter: the smallest over the hull edges of the
// largest distance from the edge's line. It is 0 for flat sets.
func Thin(p []r3.Vector) float64 {
	h := Hull(p)
	if len(h) < 3 {
		return 0
	}
	width := math.Inf(1)
	diam := 0.0
	for i := range h {
		a, b := h[i], h[(i+1)%len(h)]
		l := math.Hypot(b.X-a.X, b.Y-a.Y)
		far := 0.0
		for _, q := range h {
			far = math.Max(far, math.Abs((b.X-a.X)*(q.Y-a.Y)-(b.Y-a.Y)*(q.X-a.X))/l)
			diam = math.Max(diam, math.Hypot(q.X-a.X, q.Y-a.Y))
		}
		width = math.Min(width, far)
	}
	return width / diam
}

// Hull is the reference hull: strict corners only, counter-clockwise from the lowest of the leftmost.
func Hull(p []r3.Vector) []r3.Vector {
	ks := map[Key]r3.Vector{}
	for _, v := range p {
		ks[At(v)] = v
	}
	q := make([]r3.Vector, 0, len(ks))
	for _, v := range ks {
		q = append(q, v)
	}
	sort.Slice(q, func(i, j int) bool {
		if q[i].X != q[j].X {
			return q[i].X < q[j].X
		}
		return q[i].Y < q[j].Y
	})
	if len(q) < 3 {
		return q
	}
	half := func(q []r3.Vector) []r3.Vector {
		var h []r3.Vector
		for _, v := range q {
			for len(h) > 1 && ex.Orient2(h[len(h)-2], h[len(h)-1], v) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, v)
		}
		return h[:len(h)-1]
	}
	low := half(q)
	for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
		q[i], q[j] = q[j], q[i]
	}
	return append(low, half(q)...)
}

// Area2 is twice the signed area of a polygon, relative to its first corner.
func Area2(p []r3.Vector) float64 {
	s := 0.0
	for i := 1; i+1 < len(p); i++ {
		s += (p[i].X-p[0].X)*(p[i+1].Y-p[0].Y) - (p[i].Y-p[0].Y)*(p[i+1].X-p[0].X)
	}
	return s
}

// Extent is the largest coordinate difference.
func Extent(p []r3.Vector) float64 {
	e := 0.0
	for _, v := range p {
		e = math.Max(e, math.Max(math.Abs(v.X-p[0].X), math.Abs(v.Y-p[0].Y)))
	}
	return e
}

// Result is a triangulation, or the panic that came instead.
type Result struct {
	*tri.Triangulation
	Err   error
	Panic any
}

// Structure returns a description of the first structural defect of the triangle and half-edge lists.
// exact asks for strictly positive triangles, otherwise slivers below the rounding level may be flat.
func Structure(p []r3.Vector, t *tri.Triangulation, exact bool) string {
	n := len(t.Triangles)
	if n%3 != 0 || len(t.Halfedges) != n {
		return fmt.Sprintf("%d corner entries and %d half-edges", n, len(t.Halfedges))
	}
	ext := 0.0
	if len(p) > 0 {
		ext = Extent(p)
	}
	seen := map[[2]Key]bool{}
	for e, v := range t.Triangles {
		if v < 0 || v >= len(p) {
			return fmt.Sprintf("corner %d refers to point %d of %d", e, v, len(p))
		}
		if e%3 == 0 {
			a, b, c := p[t.Triangles[e]], p[t.Triangles[e+1]], p[t.Triangles[e+2]]
			if o := ex.Orient2(a, b, c); o >= 0 {
				cr := math.Abs((b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X))
				if exact || cr > 1e-12*ext*ext {
					return fmt.Sprintf("triangle %d (%v %v %v) is flat or winds the other way round", e/3, At(a), At(b), At(c))
				}
			}
		}
	}
	edge := func(e int) [2]int {
		return [2]int{t.Triangles[e], t.Triangles[e-e%3+(e+1)%3]}
	}
	for e, o := range t.Halfedges {
		ab := edge(e)
		k := [2]Key{At(p[ab[0]]), At(p[ab[1]])}
		if seen[k] {
			return fmt.Sprintf("edge %v -> %v is used twice in the same direction", k[0], k[1])
		}
		seen[k] = true
		if o == -1 {
			continue
		}
		if o < 0 || o >= n {
			return fmt.Sprintf("half-edge %d has opposite %d", e, o)
		}
		if t.Halfedges[o] != e {
			return fmt.Sprintf("half-edge %d has opposite %d, whose opposite is %d", e, o, t.Halfedges[o])
		}
		ba := edge(o)
		if ab[0] != ba[1] || ab[1] != ba[0] {
			return fmt.Sprintf("opposite half-edges %d and %d run %v and %v", e, o, ab, ba)
		}
		if o/3 == e/3 {
			return fmt.Sprintf("half-edge %d is glued to its own triangle", e)
		}
	}
	// An edge between two triangles must be glued.
	for e, o := range t.Halfedges {
		if o != -1 {
			continue
		}
		ab := edge(e)
		if seen[[2]Key{At(p[ab[1]]), At(p[ab[0]])}] {
			return fmt.Sprintf("half-edge %d has no opposite although the edge %v is used the other way", e, ab)
		}
	}
	return ""
}

// Boundary counts half-edges without opposite and distinct used positions.
func Boundary(p []r3.Vector, t *tri.Triangulation) (boundary, used int) {
	m := map[Key]bool{}
	for e, v := range t.Triangles {
		m[At(p[v])] = true
		if t.Halfedges[e] == -1 {
			boundary++
		}
	}
	return boundary, len(m)
}

// Run triangulates a copy of p.
func Run(p []r3.Vector) (t *tri.Triangulation, err error) {
	return tri.Triangulate(append([]r3.Vector(nil), p...))
}
