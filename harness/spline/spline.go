// Package spline evaluates B-splines with integer knots in exact rational arithmetic, from their
// definition, and draws knot vectors.
package spline

import (
	"math"
	"math/big"

	"verif/gen"

	"pgregory.net/rapid"
)

// Knots is a degree, a knot vector for N+1 control points, and a parameter in its domain.
type Knots struct {
	P int
	U []int
	T float64
}

// N is the index of the last control point.
func (k Knots) N() int { return len(k.U) - k.P - 2 }

// Span is the non-empty knot span of the domain that holds the parameter; the last one at the end.
func (k Knots) Span() int {
	n := k.N()
	for i := k.P; i <= n; i++ {
		if float64(k.U[i]) <= k.T && k.T < float64(k.U[i+1]) {
			return i
		}
	}
	for i := n; i >= k.P; i-- {
		if k.U[i] < k.U[i+1] {
			return i
		}
	}
	panic("empty domain")
}

func rat(x float64) *big.Rat { return new(big.Rat).SetFloat64(x) }

// Poly is a polynomial in the parameter, lowest power first.
type Poly []*big.Rat

func (a Poly) plus(b Poly) Poly {
	var out Poly
	for i := 0; i < len(a) || i < len(b); i++ {
		s := new(big.Rat)
		if i < len(a) {
			s.Add(s, a[i])
		}
		if i < len(b) {
			s.Add(s, b[i])
		}
		out = append(out, s)
	}
	return out
}

// timesLinear multiplies by (c0 + c1 x).
func (a Poly) timesLinear(c0, c1 *big.Rat) Poly {
	if len(a) == 0 {
		return nil
	}
	out := make(Poly, len(a)+1)
	for i := range out {
		out[i] = new(big.Rat)
	}
	for i, c := range a {
		out[i].Add(out[i], new(big.Rat).Mul(c, c0))
		out[i+1].Add(out[i+1], new(big.Rat).Mul(c, c1))
	}
	return out
}

// At evaluates the k-th derivative at x.
func (a Poly) At(k int, x *big.Rat) *big.Rat {
	sum := new(big.Rat)
	for i := len(a) - 1; i >= k; i-- {
		f := new(big.Rat).Set(a[i])
		for m := 0; m < k; m++ {
			f.Mul(f, big.NewRat(int64(i-m), 1))
		}
		sum.Mul(sum, x)
		sum.Add(sum, f)
	}
	return sum
}

// Basis returns, for the given span, the polynomial piece of every basis function of degree p,
// by the Cox-de Boor definition with 0/0 = 0.
func (k Knots) Basis(span, p int) []Poly {
	cur := make([]Poly, len(k.U)-1)
	cur[span] = Poly{big.NewRat(1, 1)}
	for d := 1; d <= p; d++ {
		next := make([]Poly, len(cur)-1)
		for i := range next {
			if w := k.U[i+d] - k.U[i]; w > 0 {
				next[i] = next[i].plus(cur[i].timesLinear(big.NewRat(int64(-k.U[i]), int64(w)), big.NewRat(1, int64(w))))
			}
			if w := k.U[i+d+1] - k.U[i+1]; w > 0 {
				next[i] = next[i].plus(cur[i+1].timesLinear(big.NewRat(int64(k.U[i+d+1]), int64(w)), big.NewRat(-1, int64(w))))
			}
		}
		cur = next
	}
	return cur
}

// Magnitude returns, for every basis function, the sum of the absolute terms that make up its
// k-th derivative: the scale of the rounding errors.
func (k Knots) Magnitude(span, p, order int) []float64 {
	if order == 0 {
		out := []float64{}
		for _, b := range k.Basis(span, p) {
			f, _ := b.At(0, rat(k.T)).Float64()
			out = append(out, math.Abs(f))
		}
		return out
	}
	low := k.Magnitude(span, p-1, order-1)
	out := make([]float64, len(low)-1)
	for i := range out {
		if w := k.U[i+p] - k.U[i]; w > 0 {
			out[i] += float64(p) * low[i] / float64(w)
		}
		if w := k.U[i+p+1] - k.U[i+1]; w > 0 {
			out[i] += float64(p) * low[i+1] / float64(w)
		}
	}
	return out
}

// Draw draws knots and a parameter.
func Draw(t *rapid.T) Knots {
	k := Knots{P: rapid.SampledFrom([]int{3, 2, 1, 4, 5, 3, 2, 6, 0}).Draw(t, "degree")}
	if rapid.IntRange(0, 40).Draw(t, "high") == 40 {
		k.P = rapid.IntRange(7, 10).Draw(t, "high degree")
	}
	return draw(t, k)
}

// DrawHigh draws knots of a degree above ten, and a parameter.
func DrawHigh(t *rapid.T) Knots {
	return draw(t, Knots{P: rapid.IntRange(11, 30).Draw(t, "degree")})
}

func draw(t *rapid.T, k Knots) Knots {
	p := k.P
	n := p + rapid.IntRange(0, 9).Draw(t, "spans")
	if p <= 10 && rapid.IntRange(0, 40).Draw(t, "many") == 40 {
		n = p + rapid.IntRange(20, 300).Draw(t, "many spans")
	}
	start := rapid.SampledFrom([]int{0, 0, 0, 1, -3, -20, 1000, -1000000000, 1 << 40}).Draw(t, "start")
	step := rapid.SampledFrom([]int{1, 1, 1, 3, 50, 100000, 1 << 33}).Draw(t, "step")
	if p > 10 { // products of thirty factors stay in range
		step = min(step, 50)
	}
	kind := rapid.SampledFrom([]string{"clamped", "uniform", "free", "bezier"}).Draw(t, "kind")
	if kind == "bezier" {
		n = p
	}
	x := start
	for i := 0; i < n+p+2; i++ {
		clampedHere := i <= p || i > n+1
		switch {
		case i == 0:
		case (kind == "clamped" || kind == "bezier") && clampedHere:
		case kind == "uniform":
			x += step
		case i == n+1 && (kind == "clamped" || kind == "bezier"):
			x += step // the domain is not empty
		default:
			x += rapid.IntRange(0, 3).Draw(t, "gap") * rapid.IntRange(1, step).Draw(t, "width")
		}
		k.U = append(k.U, x)
	}
	if k.U[p] == k.U[n+1] { // free knots that all coincide
		for i := n + 1; i < len(k.U); i++ {
			k.U[i] += step
		}
	}
	lo, hi := float64(k.U[p]), float64(k.U[n+1])
	switch rapid.IntRange(0, 7).Draw(t, "where") {
	case 0:
		k.T = hi
	case 1, 2:
		k.T = float64(k.U[rapid.IntRange(p, n+1).Draw(t, "knot")])
	case 3:
		k.T = float64(k.U[rapid.IntRange(p, n+1).Draw(t, "knot")])
		if rapid.Bool().Draw(t, "below") {
			k.T = math.Nextafter(k.T, lo)
		} else {
			k.T = math.Nextafter(k.T, hi)
		}
	case 4:
		i := rapid.IntRange(p, n).Draw(t, "span")
		k.T = float64(k.U[i]) + float64(k.U[i+1]-k.U[i])*float64(rapid.IntRange(0, 8).Draw(t, "eighth"))/8
	default:
		k.T = gen.Uniform(t, "t", lo, hi)
	}
	k.T = math.Max(lo, math.Min(hi, k.T))
	return k
}

// Label describes the knots.
func (k Knots) Label() string {
	n := k.N()
	for i := k.P; i <= n+1; i++ {
		if float64(k.U[i]) == k.T {
			if i == n+1 || k.U[i] == k.U[n+1] {
				return "at the end"
			}
			return "on a knot"
		}
	}
	return "inside"
}
