// C37: the planar measures: areas, distances, circumcircles, direction order.
package main

import (
	"math"
	"math/big"

	"geGoMetry/r3"
	tri "geGoMetry/triangulate2"
	ex "verif/exact"
	"verif/gen"
	"verif/pbt"

	"pgregory.net/rapid"
)

const u = 0x1p-53

type Tri struct {
	P     [4]r3.Vector // three corners and a probe
	Exact bool
}

func f2(x *big.Rat) float64 { return ex.Float(x) }

func checkTri(c Tri, r *pbt.R) {
	a, b, d, p := c.P[0], c.P[1], c.P[2], c.P[3]
	ax, ay := ex.F(a.X), ex.F(a.Y)
	bx, by := ex.Sub(ex.F(b.X), ax), ex.Sub(ex.F(b.Y), ay)
	cx, cy := ex.Sub(ex.F(d.X), ax), ex.Sub(ex.F(d.Y), ay)
	det := ex.Sub(ex.Mul(bx, cy), ex.Mul(by, cx)) // positive counter-clockwise
	bl := ex.Add(ex.Mul(bx, bx), ex.Mul(by, by))
	cl := ex.Add(ex.Mul(cx, cx), ex.Mul(cy, cy))
	slack := 1.0
	if c.Exact {
		slack = 0
	}

	if got, w := tri.VerifSquaredDistance(a, b), f2(bl); !(math.Abs(got-w) <= slack*8*u*w) {
		r.Failf("squared distance of %v and %v in the plane is %v, want %v", a, b, got, w)
	}
	ds := math.Abs(d.X-b.X)*math.Abs(b.Y-a.Y) + math.Abs(d.Y-b.Y)*math.Abs(b.X-a.X)
	if got, w := tri.VerifArea(a, b, d), -f2(det); !(math.Abs(got-w) <= slack*8*u*ds) {
		r.Failf("doubled area of %v %v %v, positive when clockwise, is %v, want %v", a, b, d, got, w)
	}
	o := det.Sign()
	if o == 0 {
		r.Label("collinear")
		if x := tri.VerifCircumradius(a, b, d); c.Exact && !math.IsInf(x, 1) {
			r.Failf("squared circumradius of %v %v %v, which lie on a line, is %v, want infinity", a, b, d, x)
		}
		return
	}
	r.NonTrivial()
	// the three clockwise orders
	q := [3]r3.Vector{a, b, d}
	if o > 0 {
		q[1], q[2] = q[2], q[1]
	}
	sign, _ := ex.InCircle(q[0], q[1], q[2], p)
	for i := 0; i < 3; i++ {
		if !c.Exact && ex.InCircleMargin(q[0], q[1], q[2], p) < 64*u {
			r.Label("probe near the circle")
			break
		}
		if got := tri.VerifInCircle(q[i], q[(i+1)%3], q[(i+2)%3], p); got != (sign > 0) {
			r.Failf("in-circle test of %v against the clockwise triangle %v %v %v is %v, its side is %d", p, q[i], q[(i+1)%3], q[(i+2)%3], got, sign)
		}
	}
	if sign == 0 {
		r.Label("probe on the circle")
	}
	// circumcircle
	dd := ex.Add(det, det)
	x := ex.Quo(ex.Sub(ex.Mul(cy, bl), ex.Mul(by, cl)), dd)
	y := ex.Quo(ex.Sub(ex.Mul(bx, cl), ex.Mul(cx, bl)), dd)
	rr := f2(ex.Add(ex.Mul(x, x), ex.Mul(y, y)))
	cond := math.Sqrt(f2(bl)) * math.Sqrt(f2(cl)) / math.Abs(f2(det)) // 1/sin of the angle
	if cond > 1e4 && !c.Exact {
		r.Label("thin")
		return
	}
	rel := 64 * u
	if !c.Exact {
		rel *= cond * cond
	}
	if got := tri.VerifCircumradius(a, b, d); !(math.Abs(got-rr) <= rel*rr) {
		r.Failf("squared circumradius of %v %v %v is %v, want %v", a, b, d, got, rr)
	}
	got := tri.VerifCircumcenter(a, b, d)
	tol := rel*math.Sqrt(rr) + 4*u*(math.Abs(a.X)+math.Abs(a.Y))
	if wx, wy := f2(ex.Add(ax, x)), f2(ex.Add(ay, y)); !(math.Abs(got.X-wx) <= tol) || !(math.Abs(got.Y-wy) <= tol) {
		r.Failf("circumcentre of %v %v %v is %v, want (%v, %v)", a, b, d, got, wx, wy)
	}
}

type Poly struct {
	P     []r3.Vector
	Exact bool
}

func checkPoly(c Poly, r *pbt.R) {
	n := len(c.P)
	r.NonTrivialIf(n > 2)
	sum := new(big.Rat)
	perm, length := 0.0, 0.0
	for i, p := range c.P {
		q := c.P[(i+1)%n]
		sum = ex.Add(sum, ex.Sub(ex.Mul(ex.F(p.X), ex.F(q.Y)), ex.Mul(ex.F(p.Y), ex.F(q.X))))
		o := c.P[0]
		perm += math.Abs((p.X-o.X)*(q.Y-o.Y)) + math.Abs((p.Y-o.Y)*(q.X-o.X))
		length += math.Hypot(p.X-q.X, p.Y-q.Y)
	}
	tol := float64(8*(n+2)) * u
	if c.Exact {
		perm = 0
	}
	if got, w := tri.VerifPolygonArea(c.P), f2(sum)/2; !(math.Abs(got-w) <= tol*perm) {
		r.Failf("area of the polygon %v is %v, want %v", c.P, got, w)
	}
	fan := tri.Triangulation{Vectors: c.P}
	fanPerm := 0.0
	for i := 1; i+1 < n; i++ {
		o, b, d := c.P[0], c.P[i], c.P[i+1]
		fanPerm += math.Abs((b.Y-o.Y)*(d.X-b.X)) + math.Abs((b.X-o.X)*(d.Y-b.Y))
		fan.Triangles = append(fan.Triangles, 0, i, i+1)
	}
	if got, w := tri.VerifTriangulationArea(&fan), -f2(sum)/2; !(math.Abs(got-w) <= tol*fanPerm) {
		r.Failf("the triangles fanning out from the first corner of %v have the area %v, want %v", c.P, got, w)
	}
	if got := tri.VerifPolygonPerimeter(c.P); !(math.Abs(got-length) <= tol*length) {
		r.Failf("perimeter of the polygon %v is %v, want %v", c.P, got, length)
	}
}

type Directions struct {
	A, B [2]int
	K    float64 // length of the second one
}

// Two directions of any coordinates.
type Two struct{ A, B [2]float64 }

func checkTwo(c Two, r *pbt.R) {
	if c.A == [2]float64{} || c.B == [2]float64{} {
		return
	}
	r.NonTrivial()
	ga, gb := tri.VerifPseudoAngle(c.A[0], c.A[1]), tri.VerifPseudoAngle(c.B[0], c.B[1])
	if !(ga >= 0 && ga < 1 && gb >= 0 && gb < 1) {
		r.Failf("direction values of %v and %v are %v and %v, outside 0..1", c.A, c.B, ga, gb)
	}
	cross := ex.Sub(ex.Mul(ex.F(c.A[0]), ex.F(c.B[1])), ex.Mul(ex.F(c.A[1]), ex.F(c.B[0]))).Sign()
	dot := ex.Add(ex.Mul(ex.F(c.A[0]), ex.F(c.B[0])), ex.Mul(ex.F(c.A[1]), ex.F(c.B[1]))).Sign()
	upA, upB := c.A[1] > 0, c.B[1] > 0
	less, more := false, false
	switch {
	case upA != upB:
		less, more = upB, upA
	case cross != 0:
		less, more = cross > 0, cross < 0
	case dot < 0: // both on the axis
		less, more = c.A[0] < 0, c.B[0] < 0
	}
	if !less && !more {
		r.Label("same direction")
	}
	// Close directions may share a value, but not change places.
	if !more && ga > gb+8*u || !less && gb > ga+8*u {
		r.Failf("directions %v and %v have the values %v and %v, against the order of their angles", c.A, c.B, ga, gb)
	}
}

// before is the order of directions by angle, from the negative first axis counter-clockwise.
func half(v [2]int) int {
	if v[1] < 0 || v[1] == 0 && v[0] < 0 {
		return 0
	}
	return 1
}

func checkDir(c Directions, r *pbt.R) {
	if c.A == [2]int{} || c.B == [2]int{} {
		return
	}
	r.NonTrivial()
	ga := tri.VerifPseudoAngle(float64(c.A[0]), float64(c.A[1]))
	gb := tri.VerifPseudoAngle(c.K*float64(c.B[0]), c.K*float64(c.B[1]))
	if !(ga >= 0 && ga < 1 && gb >= 0 && gb < 1) {
		r.Failf("direction values of %v and %v are %v and %v, outside 0..1", c.A, c.B, ga, gb)
	}
	cross := c.A[0]*c.B[1] - c.A[1]*c.B[0]
	dot := c.A[0]*c.B[0] + c.A[1]*c.B[1]
	if cross == 0 && dot > 0 {
		r.Label("same direction")
		if !(math.Abs(ga-gb) <= 8*u) {
			r.Failf("the same direction %v, %v has the values %v and %v", c.A, c.B, ga, gb)
		}
		return
	}
	less := half(c.A) < half(c.B) || half(c.A) == half(c.B) && cross > 0
	if less != (ga < gb) || ga == gb {
		r.Failf("directions %v and %v have the values %v and %v, against the order of their angles", c.A, c.B, ga, gb)
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C37",
		Rule:        "triangles with a probe (small integers judged exactly, floats of all scales, far from the origin, probes on corners, on the circle and 1e-14 to 1e-3 radii off it), polygons of 0 to 12 (some up to 300) corners, pairs of integer directions up to 1000, pairs of float directions of coordinates from 1e-20 to 1e20, among them nearly equal ones and ones next to an axis, triangles of 2^-80 to 2^60 times their size; oracle: exact rational areas, distances, circumcircles and sides, float results within a multiple of rounding (for circumcircles times the squared condition of the triangle). Non-trivial: a triangle that is not flat, three corners, two directions.",
		Assumptions: []string{"circumcircles of float triangles with an angle whose sine is below 1e-4 are left open, as are probes within 64 rounding units of the circle"},
		Parts: []pbt.Part{
			pbt.P("triangle", 120000, 2000000, func(t *rapid.T) Tri {
				var c Tri
				switch rapid.IntRange(0, 3).Draw(t, "kind") {
				case 3: // close to a common circle
					s := math.Abs(gen.LogUniform(t, "s", -3, 3))
					o := gen.Box(t, "o", -s, s)
					for i := range c.P {
						a := 2 * math.Pi * gen.Uniform(t, "at", 0, 1)
						c.P[i] = r3.Vector{X: o.X + s*math.Cos(a), Y: o.Y + s*math.Sin(a)}
					}
					c.P[3] = r3.Add(o, r3.Sub(c.P[3], o).Scaled(1+gen.LogUniform(t, "off", -14, -3)))
				case 0:
					c.Exact = true
					m := rapid.SampledFrom([]int{2, 5, 50, 1000}).Draw(t, "m")
					for i := range c.P {
						c.P[i] = gen.IntVec(t, "p", m)
					}
					if rapid.IntRange(0, 5).Draw(t, "cocircular") == 0 { // on a common circle
						k := [][2]float64{{3, 4}, {4, 3}, {5, 0}, {0, 5}, {-3, 4}, {-4, 3}, {3, -4}, {4, -3}, {-5, 0}, {0, -5}, {-3, -4}, {-4, -3}}
						for i := range c.P {
							v := rapid.SampledFrom(k).Draw(t, "on")
							c.P[i].X, c.P[i].Y = v[0], v[1]
						}
					}
					if rapid.IntRange(0, 3).Draw(t, "power") == 0 { // which changes no digit of any result
						f := math.Ldexp(1, rapid.IntRange(-80, 60).Draw(t, "exp"))
						for i := range c.P {
							c.P[i] = c.P[i].Scaled(f)
						}
					}
				case 1:
					for i := range c.P {
						c.P[i] = gen.Vec(t, "p", -4, 4)
					}
				default:
					o := gen.Vec(t, "o", -2, 5)
					s := math.Abs(gen.LogUniform(t, "s", -3, 3))
					if rapid.IntRange(0, 3).Draw(t, "tiny") == 0 {
						o, s = r3.Vector{}, math.Abs(gen.LogUniform(t, "s", -20, 20))
					}
					for i := range c.P {
						c.P[i] = r3.Add(o, gen.Box(t, "p", -s, s))
					}
				}
				return c
			}, checkTri),
			pbt.P("polygon", 60000, 1000000, func(t *rapid.T) Poly {
				c := Poly{P: []r3.Vector{}, Exact: rapid.Bool().Draw(t, "exact")}
				o := gen.Vec(t, "o", -2, 5)
				n := rapid.IntRange(0, 12).Draw(t, "n")
				if rapid.IntRange(0, 60).Draw(t, "many") == 60 {
					n = rapid.IntRange(50, 300).Draw(t, "corners")
				}
				for ; n > 0; n-- {
					if c.Exact {
						c.P = append(c.P, gen.IntVec(t, "p", 1000))
					} else {
						c.P = append(c.P, r3.Add(o, gen.Vec(t, "p", -3, 3)))
					}
				}
				return c
			}, checkPoly),
			pbt.P("direction", 80000, 1000000, func(t *rapid.T) Directions {
				var c Directions
				m := rapid.SampledFrom([]int{2, 10, 1000}).Draw(t, "m")
				g := rapid.IntRange(-m, m)
				c.A = [2]int{g.Draw(t, "ax"), g.Draw(t, "ay")}
				switch rapid.IntRange(0, 4).Draw(t, "relation") {
				case 0:
					k := rapid.IntRange(1, 9).Draw(t, "k")
					c.B = [2]int{k * c.A[0], k * c.A[1]}
				case 1:
					c.B = [2]int{-c.A[0], -c.A[1]}
				case 2:
					c.B = [2]int{c.A[0], -c.A[1]}
				default:
					c.B = [2]int{g.Draw(t, "bx"), g.Draw(t, "by")}
				}
				c.K = rapid.SampledFrom([]float64{1, 1, 0.1, 3, 1e-9, 1e12}).Draw(t, "length")
				return c
			}, checkDir),
			pbt.P("close", 80000, 1000000, func(t *rapid.T) Two {
				var c Two
				for k := range c.A {
					c.A[k] = gen.Scalar(t, "a", -20, 20)
					c.B[k] = gen.Scalar(t, "b", -20, 20)
				}
				switch rapid.IntRange(0, 3).Draw(t, "relation") {
				case 0:
					for k := range c.A {
						c.B[k] = c.A[k] * (1 + 1e-12*gen.Uniform(t, "by", -1, 1))
					}
				case 1: // next to an axis
					k := rapid.IntRange(0, 1).Draw(t, "axis")
					c.B[k] = c.A[1-k] * gen.LogUniform(t, "tilt", -40, -3)
					c.B[1-k] = c.A[1-k]
				}
				return c
			}, checkTwo),
		},
	})
}
