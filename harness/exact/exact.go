// Package exact evaluates the geometric predicates the oracles need without rounding.
package exact

import (
	"math"
	"math/big"

	"geGoMetry/r3"
)

// Rat is an exact rational.
type Rat = big.Rat

// F converts a finite float exactly.
func F(x float64) *big.Rat {
	r := new(big.Rat)
	if r.SetFloat64(x) == nil {
		panic("exact: not finite")
	}
	return r
}

func Add(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func Sub(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
func Mul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func Quo(a, b *big.Rat) *big.Rat { return new(big.Rat).Quo(a, b) }
func Abs(a *big.Rat) *big.Rat    { return new(big.Rat).Abs(a) }

// Float rounds to nearest.
func Float(a *big.Rat) float64 { f, _ := a.Float64(); return f }

// V is an exact vector.
type V [3]*big.Rat

func Vec(v r3.Vector) V { return V{F(v.X), F(v.Y), F(v.Z)} }

func (a V) Sub(b V) V { return V{Sub(a[0], b[0]), Sub(a[1], b[1]), Sub(a[2], b[2])} }
func (a V) Dot(b V) *big.Rat {
	return Add(Add(Mul(a[0], b[0]), Mul(a[1], b[1])), Mul(a[2], b[2]))
}
func (a V) Cross(b V) V {
	return V{
		Sub(Mul(a[1], b[2]), Mul(a[2], b[1])),
		Sub(Mul(a[2], b[0]), Mul(a[0], b[2])),
		Sub(Mul(a[0], b[1]), Mul(a[1], b[0])),
	}
}

// Det3 is the determinant with rows a, b, c.
func Det3(a, b, c V) *big.Rat { return a.Dot(b.Cross(c)) }

// Orient3 is det[a-d; b-d; c-d].
func Orient3(a, b, c, d V) *big.Rat { return Det3(a.Sub(d), b.Sub(d), c.Sub(d)) }

// InSphereDet is det of rows (p-e, |p-e|^2) for p = a, b, c, d.
func InSphereDet(a, b, c, d, e V) *big.Rat {
	r := [4]V{a.Sub(e), b.Sub(e), c.Sub(e), d.Sub(e)}
	var l [4]*big.Rat
	for i := range r {
		l[i] = r[i].Dot(r[i])
	}
	// expansion along the last column
	det := new(big.Rat)
	det.Sub(det, Mul(l[0], Det3(r[1], r[2], r[3])))
	det.Add(det, Mul(l[1], Det3(r[0], r[2], r[3])))
	det.Sub(det, Mul(l[2], Det3(r[0], r[1], r[3])))
	det.Add(det, Mul(l[3], Det3(r[0], r[1], r[2])))
	return det
}

// InsideSphere is the sign telling whether e is strictly inside (+1), on (0) or outside (-1)
// the sphere through a, b, c, d, whatever their orientation; ok is false when they are coplanar.
func InsideSphere(a, b, c, d, e r3.Vector) (sign int, ok bool) {
	if s, o, sure := insideSphereFloat(a, b, c, d, e); sure {
		return s, o != 0
	}
	va, vb, vc, vd, ve := Vec(a), Vec(b), Vec(c), Vec(d), Vec(e)
	o := Orient3(va, vb, vc, vd).Sign()
	if o == 0 {
		return 0, false
	}
	// With det[a-d;b-d;c-d] > 0 the lifted determinant is positive for e inside.
	return InSphereDet(va, vb, vc, vd, ve).Sign() * o, true
}

const u = 1.0 / (1 << 53)

func insideSphereFloat(a, b, c, d, e r3.Vector) (sign, orient int, sure bool) {
	os, osure := orient3Float(a, b, c, d)
	if !osure {
		return 0, 0, false
	}
	r := [4]r3.Vector{sub(a, e), sub(b, e), sub(c, e), sub(d, e)}
	var l [4]float64
	for i := range r {
		l[i] = r[i].X*r[i].X + r[i].Y*r[i].Y + r[i].Z*r[i].Z
	}
	d0, p0 := det3(r[1], r[2], r[3])
	d1, p1 := det3(r[0], r[2], r[3])
	d2, p2 := det3(r[0], r[1], r[3])
	d3, p3 := det3(r[0], r[1], r[2])
	det := -l[0]*d0 + l[1]*d1 - l[2]*d2 + l[3]*d3
	perm := l[0]*p0 + l[1]*p1 + l[2]*p2 + l[3]*p3
	if math.Abs(det) > 64*u*perm {
		return sgn(det) * os, os, true
	}
	return 0, 0, false
}

func sub(a, b r3.Vector) r3.Vector { return r3.Vector{X: a.X - b.X, Y: a.Y - b.Y, Z: a.Z - b.Z} }

func sgn(x float64) int {
	switch {
	case x > 0:
		return 1
	case x < 0:
		return -1
	}
	return 0
}

func det3(a, b, c r3.Vector) (det, perm float64) {
	t1, t2 := b.Y*c.Z, b.Z*c.Y
	t3, t4 := b.Z*c.X, b.X*c.Z
	t5, t6 := b.X*c.Y, b.Y*c.X
	det = a.X*(t1-t2) + a.Y*(t3-t4) + a.Z*(t5-t6)
	perm = math.Abs(a.X)*(math.Abs(t1)+math.Abs(t2)) + math.Abs(a.Y)*(math.Abs(t3)+math.Abs(t4)) + math.Abs(a.Z)*(math.Abs(t5)+math.Abs(t6))
	return
}

func orient3Float(a, b, c, d r3.Vector) (int, bool) {
	det, perm := det3(sub(a, d), sub(b, d), sub(c, d))
	if math.Abs(det) > 32*u*perm {
		return sgn(det), true
	}
	return 0, false
}

// Orient3Sign is the exact sign of det[a-d; b-d; c-d].
func Orient3Sign(a, b, c, d r3.Vector) int {
	if s, ok := orient3Float(a, b, c, d); ok {
		return s
	}
	return Orient3(Vec(a), Vec(b), Vec(c), Vec(d)).Sign()
}

// Orient2 is the exact sign of (b-a)x(c-a) in the xy plane: +1 for counter-clockwise.
func Orient2(a, b, c r3.Vector) int {
	l, r := (b.X-a.X)*(c.Y-a.Y), (b.Y-a.Y)*(c.X-a.X)
	if d := l - r; math.Abs(d) > 8*u*(math.Abs(l)+math.Abs(r)) {
		return sgn(d)
	}
	ax, ay := F(a.X), F(a.Y)
	return Sub(Mul(Sub(F(b.X), ax), Sub(F(c.Y), ay)), Mul(Sub(F(b.Y), ay), Sub(F(c.X), ax))).Sign()
}

// InCircle is the exact sign telling whether p is strictly inside (+1), on (0) or outside (-1) the
// circle through a, b, c in the xy plane; ok is false when they are collinear.
func InCircle(a, b, c, p r3.Vector) (sign int, ok bool) {
	o := Orient2(a, b, c)
	if o == 0 {
		return 0, false
	}
	dx, dy := a.X-p.X, a.Y-p.Y
	ex, ey := b.X-p.X, b.Y-p.Y
	fx, fy := c.X-p.X, c.Y-p.Y
	al, bl, cl := dx*dx+dy*dy, ex*ex+ey*ey, fx*fx+fy*fy
	det := al*(ex*fy-ey*fx) - bl*(dx*fy-dy*fx) + cl*(dx*ey-dy*ex)
	perm := al*(math.Abs(ex*fy)+math.Abs(ey*fx)) + bl*(math.Abs(dx*fy)+math.Abs(dy*fx)) + cl*(math.Abs(dx*ey)+math.Abs(dy*ex))
	if math.Abs(det) > 32*u*perm {
		return sgn(det) * o, true
	}
	px, py := F(p.X), F(p.Y)
	x := [3]*big.Rat{Sub(F(a.X), px), Sub(F(b.X), px), Sub(F(c.X), px)}
	y := [3]*big.Rat{Sub(F(a.Y), py), Sub(F(b.Y), py), Sub(F(c.Y), py)}
	var l [3]*big.Rat
	for i := range l {
		l[i] = Add(Mul(x[i], x[i]), Mul(y[i], y[i]))
	}
	m := func(i, j int) *big.Rat { return Sub(Mul(x[i], y[j]), Mul(y[i], x[j])) }
	r := Mul(l[0], m(1, 2))
	r = Sub(r, Mul(l[1], m(0, 2)))
	r = Add(r, Mul(l[2], m(0, 1)))
	return r.Sign() * o, true
}

// InCircleMargin is |incircle determinant| over its permanent: how decisively p is inside or outside.
func InCircleMargin(a, b, c, p r3.Vector) float64 {
	dx, dy := a.X-p.X, a.Y-p.Y
	ex, ey := b.X-p.X, b.Y-p.Y
	fx, fy := c.X-p.X, c.Y-p.Y
	al, bl, cl := dx*dx+dy*dy, ex*ex+ey*ey, fx*fx+fy*fy
	det := al*(ex*fy-ey*fx) - bl*(dx*fy-dy*fx) + cl*(dx*ey-dy*ex)
	perm := al*(math.Abs(ex*fy)+math.Abs(ey*fx)) + bl*(math.Abs(dx*fy)+math.Abs(dy*fx)) + cl*(math.Abs(dx*ey)+math.Abs(dy*ex))
	if perm == 0 {
		return 0
	}
	return math.Abs(det) / perm
}

// InSphereParts returns the exact lifted determinant in the library's convention (negative for e
// inside when det[a-d;b-d;c-d] > 0) and an upper estimate of its permanent.
func InSphereParts(a, b, c, d, e r3.Vector) (det *big.Rat, perm float64) {
	det = new(big.Rat).Neg(InSphereDet(Vec(a), Vec(b), Vec(c), Vec(d), Vec(e)))
	r := [4]r3.Vector{sub(a, e), sub(b, e), sub(c, e), sub(d, e)}
	var l [4]float64
	for i := range r {
		l[i] = r[i].X*r[i].X + r[i].Y*r[i].Y + r[i].Z*r[i].Z
	}
	_, p0 := det3(r[1], r[2], r[3])
	_, p1 := det3(r[0], r[2], r[3])
	_, p2 := det3(r[0], r[1], r[3])
	_, p3 := det3(r[0], r[1], r[2])
	return det, l[0]*p0 + l[1]*p1 + l[2]*p2 + l[3]*p3
}

// Orient3Parts returns the exact determinant and its permanent.
func Orient3Parts(a, b, c, d r3.Vector) (det *big.Rat, perm float64) {
	_, perm = det3(sub(a, d), sub(b, d), sub(c, d))
	return Orient3(Vec(a), Vec(b), Vec(c), Vec(d)), perm
}

// SphereMargin evaluates the in-sphere determinant in doubles: its sign in the convention of
// InsideSphere, and its size relative to the permanent. Above 1e-12 the sign is certain.
func SphereMargin(a, b, c, d, e r3.Vector) (sign int, margin float64) {
	o, _ := det3(sub(a, d), sub(b, d), sub(c, d))
	r := [4]r3.Vector{sub(a, e), sub(b, e), sub(c, e), sub(d, e)}
	var l [4]float64
	for i := range r {
		l[i] = r[i].X*r[i].X + r[i].Y*r[i].Y + r[i].Z*r[i].Z
	}
	d0, p0 := det3(r[1], r[2], r[3])
	d1, p1 := det3(r[0], r[2], r[3])
	d2, p2 := det3(r[0], r[1], r[3])
	d3, p3 := det3(r[0], r[1], r[2])
	det := -l[0]*d0 + l[1]*d1 - l[2]*d2 + l[3]*d3
	perm := l[0]*p0 + l[1]*p1 + l[2]*p2 + l[3]*p3
	if perm == 0 {
		return 0, 0
	}
	return sgn(det) * sgn(o), math.Abs(det) / perm
}

// OrientMargin is the size of det[a-d;b-d;c-d] relative to its permanent, evaluated in doubles.
func OrientMargin(a, b, c, d r3.Vector) float64 {
	det, perm := det3(sub(a, d), sub(b, d), sub(c, d))
	if perm == 0 {
		return 0
	}
	return math.Abs(det) / perm
}

// Circumsphere returns the center and radius of the sphere through a, b, c, d.
func Circumsphere(a, b, c, d r3.Vector) (center r3.Vector, radius float64) {
	va := Vec(a)
	r := [3]V{Vec(b).Sub(va), Vec(c).Sub(va), Vec(d).Sub(va)}
	den := Det3(r[0], r[1], r[2])
	den = Add(den, den)
	x := r[1].Cross(r[2])
	y := r[2].Cross(r[0])
	z := r[0].Cross(r[1])
	l0, l1, l2 := r[0].Dot(r[0]), r[1].Dot(r[1]), r[2].Dot(r[2])
	var o [3]float64
	for i := range o {
		o[i] = Float(Quo(Add(Add(Mul(l0, x[i]), Mul(l1, y[i])), Mul(l2, z[i])), den))
	}
	return r3.Vector{X: a.X + o[0], Y: a.Y + o[1], Z: a.Z + o[2]}, math.Sqrt(o[0]*o[0] + o[1]*o[1] + o[2]*o[2])
}
