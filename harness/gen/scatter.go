package gen

import (
	"math"
	"strconv"

	"geGoMetry/r3"

	"pgregory.net/rapid"
)

// Scatter is a seeded cloud of points with full mantissas, for sizes at which drawing every coordinate
// would make degenerate sets likely.
type Scatter struct {
	Seed  uint64
	N     int
	Scale float64
	Shape int // 0 cube, 1 gaussian, 2 elongated, 3 two clusters, 4 a shell around a point, 5 copies of a cluster, 6 a ring around an axis
	Sort  string
}

// Draw draws a scatter of lo to hi points.
func (Scatter) Draw(t *rapid.T, lo, hi int) Scatter {
	return Scatter{
		Seed:  rapid.Uint64().Draw(t, "seed"),
		N:     rapid.IntRange(lo, hi).Draw(t, "n"),
		Scale: rapid.SampledFrom([]float64{0.01, 1, 10, 1e3}).Draw(t, "scale"),
		Shape: rapid.IntRange(0, 6).Draw(t, "shape"),
		Sort:  DrawOrder(t),
	}
}

// Rand is splitmix64.
type Rand uint64

func (s *Rand) Next() uint64 {
	*s += 0x9e3779b97f4a7c15
	z := uint64(*s)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (s *Rand) Float() float64 { return float64(s.Next()>>11) / (1 << 53) }

// Points returns the cloud.
func (s Scatter) Points() []r3.Vector {
	r := Rand(s.Seed)
	p := make([]r3.Vector, s.N)
	if s.Shape > 4 {
		if s.Shape == 5 {
			s.copies(&r, p)
		} else {
			s.ring(&r, p)
		}
		return p
	}
	for i := range p {
		var v [3]float64
		for k := range v {
			v[k] = 2*r.Float() - 1
			if s.Shape == 1 {
				v[k] += 2*r.Float() - 1 + 2*r.Float() - 1
			}
		}
		switch s.Shape {
		case 2:
			v[0] *= 4
		case 3:
			if i%2 == 0 {
				v[1] += 5
			}
		case 4:
			l := math.Sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]) / (1 + 0.01*r.Float())
			if l == 0 || i == 0 {
				l = 1e4
			}
			for k := range v {
				v[k] /= l
			}
		}
		p[i] = r3.Vector{X: s.Scale * v[0], Y: s.Scale * v[1], Z: s.Scale * v[2]}
	}
	Arrange(p, s.Sort)
	return p
}

// Order returns a permutation of the cloud's indices.
func (s Scatter) Order() []int {
	r := Rand(^s.Seed)
	o := make([]int, s.N)
	for i := range o {
		j := int(r.Next() % uint64(i+1))
		o[i] = o[j]
		o[j] = i
	}
	return o
}

// copies fills p with blocks of equal length, each a moved and slightly disturbed copy of the first, so that
// the neighbourhoods of a point and of the one a block later look alike.
func (s Scatter) copies(r *Rand, p []r3.Vector) {
	block := []int{10, 16, 32, 64, 100, 128, 256}[r.Next()%7]
	for i := range p {
		v := r3.Vector{X: 2*r.Float() - 1, Y: 2*r.Float() - 1, Z: 2*r.Float() - 1}
		if i >= block {
			f, g := p[i%block], 1e-3*s.Scale
			v = r3.Vector{X: f.X + g*v.X + 4*s.Scale*float64(i/block%5), Y: f.Y + g*v.Y + 4*s.Scale*float64(i/block/5%5), Z: f.Z + g*v.Z + 4*s.Scale*float64(i/block/25)}
		} else {
			v = r3.Vector{X: s.Scale * v.X, Y: s.Scale * v.Y, Z: s.Scale * v.Z}
		}
		p[i] = v
	}
}

// ring fills p with two points of an axis and a ring around it, whose neighbours all form a tetrahedron with
// the axis. Some neighbours are such that their numbers, written one after the other, read the same:
// 7, 123 and 71, 23. The numbers start at 0 or at 4.
func (s Scatter) ring(r *Rand, p []r3.Vector) {
	first := int(r.Next()%2) * 4
	var order []int
	used := map[int]bool{}
	for try := 0; try < 400 && len(order) < 32; try++ {
		x, d := strconv.Itoa(1+int(r.Next()%9)), strconv.Itoa(int(r.Next()%uint64(len(p)+first)))
		if len(d) < 3 || d[1] == '0' {
			continue
		}
		l := []string{x, d, x + d[:1], d[1:]}
		var at []int
		ok := true
		for _, w := range l {
			k, _ := strconv.Atoi(w)
			k -= first
			ok = ok && k >= 2 && k < len(p) && !used[k]
			at = append(at, k)
		}
		if !ok || at[2] >= at[3] {
			continue
		}
		for _, k := range at {
			used[k] = true
		}
		order = append(order, at...)
	}
	head := len(order)
	for k := 2; k < len(p); k++ {
		if !used[k] {
			order = append(order, k)
			j := head + int(r.Next()%uint64(len(order)-head))
			order[len(order)-1], order[j] = order[j], k
		}
	}
	for i := 0; i < 2 && i < len(p); i++ {
		p[i] = r3.Vector{X: s.Scale * 0.01 * r.Float(), Y: s.Scale * 0.01 * r.Float(), Z: s.Scale * (float64(i) - 0.5)}
	}
	for k, i := range order {
		l, a := 1+0.002*r.Float(), 2*math.Pi*(float64(k)+0.5*r.Float())/float64(len(order))
		p[i] = r3.Vector{X: s.Scale * l * math.Cos(a), Y: s.Scale * l * math.Sin(a), Z: s.Scale * 0.05 * (r.Float() - 0.5)}
	}
}
