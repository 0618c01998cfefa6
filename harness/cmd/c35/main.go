// C35: calls do not depend on each other, in sequence or at the same time.
package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"

	"geGoMetry/glTF"
	"geGoMetry/predicates"
	"geGoMetry/r3"
	"geGoMetry/shape"
	"geGoMetry/step"
	"geGoMetry/triangulate2"
	"geGoMetry/triangulate3"
	"nurbs"
	"verif/gen"
	"verif/pbt"
	"verif/solid"
	"verif/stepfile"

	mesh "geGoMetry/meshing"

	"pgregory.net/rapid"
)

// Op is a call. In chooses one of the shared inputs.
type Op struct {
	Kind string
	In   int
	A    int // a size
}

// Case is some clouds and files, and calls on them. First has the calls meet before any of them was made alone.
type Case struct {
	First  bool
	Clouds []gen.Scatter
	Files  [][]stepfile.Entity
	Ops    []Op
}

type input struct {
	p     []r3.Vector
	mesh  shape.Mesh
	text  []byte
	table step.SymbolTable
	lists string
	ctrl  [][3]float64
	knots []int
}

func (c Case) inputs() []*input {
	var in []*input
	for i, s := range c.Clouds {
		x := &input{p: gen.Roomy(s.Points())}
		n := len(x.p)
		x.mesh.Vertices = append([]r3.Vector{}, x.p...)
		for k := 0; k+2 < n; k++ {
			x.mesh.Indices = append(x.mesh.Indices, uint32(k), uint32(n-1-k), uint32((k+2)%n))
		}
		x.knots = []int{0, 0, 0}
		for k := 0; k < n; k++ {
			x.ctrl = append(x.ctrl, [3]float64{x.p[k].X, x.p[k].Y, x.p[k].Z})
			if k < n-3 {
				x.knots = append(x.knots, (k+1)*(1+i%2))
			}
		}
		x.knots = append(x.knots, 1000, 1000, 1000)
		e := c.Files[i%len(c.Files)]
		x.text = stepfile.Render(e, stepfile.Layout{Style: "spaced", Header: 1, Footer: true})
		x.table = step.SymbolTable{}
		for _, t := range e {
			if t.Complex {
				continue
			}
			d := step.Definition{Type: t.Type, Arguments: []string{}}
			for _, a := range t.Args {
				d.Arguments = append(d.Arguments, a.Tight())
			}
			x.table[fmt.Sprintf("#%d", t.ID)] = d
			x.lists += "," + stepfile.Arg{K: "list", L: t.Args}.Tight()
		}
		x.lists = "(" + strings.TrimPrefix(x.lists, ",") + ")"
		in = append(in, x)
	}
	return in
}

// pick gives the points of an input or, for some sizes, few or degenerate ones.
func pick(x *input, a int) []r3.Vector {
	switch a % 12 {
	case 0:
		return x.p[:1]
	case 1:
		return x.p[:0]
	case 2:
		return []r3.Vector{x.p[1], x.p[1], x.p[1], x.p[1]}
	case 3: // on a line
		var p []r3.Vector
		for k := 0; k < 6; k++ {
			p = append(p, r3.Vector{X: float64(k * 5 % 6), Y: x.p[0].Y, Z: x.p[k%5].Z})
		}
		return p
	case 4:
		return x.p[:3]
	case 5:
		return x.p[:5]
	}
	return x.p
}

var kinds = map[string]func(x *input, a int, dir string) any{
	"triangulate": func(x *input, a int, dir string) any {
		t, err := triangulate2.Triangulate(pick(x, a))
		if t == nil {
			return fmt.Sprint(err)
		}
		return []any{append([]int(nil), t.Triangles...), t.Halfedges, t.ConvexHull, t.Triangles, fmt.Sprint(err)}
	},
	"hull": func(x *input, a int, dir string) any { return triangulate2.ConvexHull(pick(x, a)) },
	"validate": func(x *input, a int, dir string) any {
		t, err := triangulate2.Triangulate(x.p)
		if a%2 == 1 && len(t.Triangles) > 3 {
			t.Triangles = t.Triangles[3:]
		}
		return fmt.Sprint(err, t.Validate())
	},
	"delaunay3": func(x *input, a int, dir string) any {
		t := mesh.VerifBowyerWatson(x.p[:min(len(x.p), 5+a%5)]...)
		var out []string
		for i := 0; i+2 < len(t); i += 3 {
			f := []int{t[i], t[i+1], t[i+2]}
			sort.Ints(f)
			out = append(out, fmt.Sprint(f))
		}
		sort.Strings(out)
		return out
	},
	"simplex": func(x *input, a int, dir string) any { return triangulate3.VerifInitialTetra(pick(x, a+2)) },
	"enclose": func(x *input, a int, dir string) any { return triangulate3.VerifEnglobe(pick(x, a)) },
	"insphere": func(x *input, a int, dir string) any {
		return predicates.InSphereFast(x.p[0], x.p[1], x.p[2], x.p[3], x.p[4])
	},
	"inside": func(x *input, a int, dir string) any {
		return triangulate3.VectorInTetrahedron(x.p[0], x.p[1], x.p[2], x.p[3], x.p[a%len(x.p)])
	},
	"measure": func(x *input, a int, dir string) any {
		return []float64{triangulate3.Get2Ddist(x.p[0], x.p[1], x.p[2]), triangulate3.Get3Ddist(x.p[0], x.p[1], x.p[2], x.p[3])}
	},
	"intersect": func(x *input, a int, dir string) any {
		return r3.Line{Vector: x.p[0], Direction: x.p[1]}.IntersectPlane(r3.Plane3D{Normal: x.p[2], Vector: x.p[3]})
	},
	"vectors": func(x *input, a int, dir string) any {
		p, q := x.p[0], x.p[a%len(x.p)]
		return []any{r3.Normalize(p), r3.Cross(p, q), r3.Interpolate(&p, &q, 0.25), p.Scaled(3), r3.Distance(p, q), r3.Abs(p)}
	},
	"sphere": func(x *input, a int, dir string) any { m, _ := solid.Sphere(x.p[0], 2, 3+a/7, 2+a%7); return m },
	"torus":  func(x *input, a int, dir string) any { m, _ := solid.Torus(x.p[0], 2, 0.5, 3+a/7, 3+a%7); return m },
	"circle": func(x *input, a int, dir string) any { m, _ := solid.Circle(x.p[0], 2, 3+a); return m },
	"ellipse": func(x *input, a int, dir string) any {
		m, _ := solid.Ellipse(x.p[0], 2, 3, 3+a)
		return m
	},
	"export": func(x *input, a int, dir string) any {
		f, err := os.CreateTemp(dir, "export")
		if err != nil {
			panic(err)
		}
		f.Close()
		defer os.Remove(f.Name())
		m := x.mesh
		if a%3 == 0 {
			m.Vertices, m.Indices = m.Vertices[:4], []uint32{0, 1, 2, 1, 2, 3}
		}
		switch a % 9 {
		case 1:
			m.Indices = nil
		case 2:
			m = shape.Mesh{}
		}
		glTF.Export(m, f.Name())
		b, err := os.ReadFile(f.Name())
		if err != nil {
			panic(err)
		}
		return b
	},
	"read": func(x *input, a int, dir string) any {
		f, err := os.CreateTemp(dir, "read")
		if err != nil {
			panic(err)
		}
		f.Write(x.text)
		f.Close()
		defer os.Remove(f.Name())
		l := step.Lexer{Filename: f.Name(), SymbolsChan: make(chan step.Symbol, 2)}
		return l.Lex()
	},
	"parse": func(x *input, a int, dir string) any { step.Parse(x.table); return nil },
	"list": func(x *input, a int, dir string) any {
		return []any{step.VerifArray(x.lists), step.VerifMatrix(x.lists)}
	},
	"curve": func(x *input, a int, dir string) any {
		return nurbs.VerifCurve(len(x.ctrl)-1, 2, x.knots, x.ctrl, float64(a%50)/50*1000)
	},
	"nearest": func(x *input, a int, dir string) any { return mesh.VerifNearest(x.p, x.p[a%len(x.p)]) },
	"split": func(x *input, a int, dir string) any {
		v, i := mesh.VerifFlip14(append([]r3.Vector(nil), x.p[:4]...), []uint32{0, 1, 2, 1, 2, 3, 2, 3, 0, 3, 0, 1}, x.p[4])
		return []any{v, i}
	},
	"enclose mesh": func(x *input, a int, dir string) any {
		v, i := mesh.VerifEnglobe(append([]r3.Vector(nil), x.p[:1+a%len(x.p)]...))
		return []any{v, i}
	},
	"inside mesh": func(x *input, a int, dir string) any {
		return []any{mesh.VerifVectorInTetrahedron(x.p[0], x.p[1], x.p[2], x.p[3], x.p[a%len(x.p)]), mesh.VerifCentroid(x.p[0], x.p[1], x.p[2], x.p[3])}
	},
	"filtered": func(x *input, a int, dir string) any {
		return []any{predicates.VerifInSphere(x.p[0], x.p[1], x.p[2], x.p[3], x.p[a%len(x.p)]), predicates.VerifOrient3D(x.p[0], x.p[1], x.p[2], x.p[a%len(x.p)])}
	},
	"normal": func(x *input, a int, dir string) any {
		return []any{r3.VerifNormal(x.p[0], x.p[1], x.p[a%len(x.p)]), r3.VerifNewPlane(x.p[2], x.p[3])}
	},
	"measures": func(x *input, a int, dir string) any {
		p := pick(x, a)
		return []any{triangulate2.VerifPolygonArea(p), triangulate2.VerifPolygonPerimeter(p), triangulate2.VerifArea(x.p[0], x.p[1], x.p[2]),
			triangulate2.VerifInCircle(x.p[0], x.p[1], x.p[2], x.p[3]), triangulate2.VerifCircumcenter(x.p[0], x.p[1], x.p[2])}
	},
	"logical": func(x *input, a int, dir string) any {
		return step.VerifLogical([]string{".T.", ".F.", ".U.", "", "$"}[a%5])
	},
	"basis": func(x *input, a int, dir string) any {
		n := len(x.ctrl) - 1
		u := float64(a%50) / 50 * 1000
		k := nurbs.VerifSpan(n, 2, u, x.knots)
		return []any{k, nurbs.VerifBasis(k, u, 2, x.knots)}
	},
	"derivatives": func(x *input, a int, dir string) any {
		n := len(x.ctrl) - 1
		return nurbs.VerifDers(n, float64(x.knots[n])+float64(a%7), 2, a%3, x.knots)
	},
}

func print(v any) string { return fmt.Sprintf("%v", v) }

// scribble overwrites everything the value leads to, as the owner of a result may.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
			if k := v.Index(i).Kind(); k != reflect.Interface {
				v.Index(i).SetZero()
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
		}
		v.Clear()
	}
}

// call makes one call; a panic is a result like any other, the same every time.
func call(op Op, in []*input, dir string) (res any) {
	if e, bad := pbt.Try(func() { res = kinds[op.Kind](in[op.In], op.A, dir) }); bad {
		return fmt.Sprint("panic: ", e)
	}
	return res
}

var args = append(os.Args[:len(os.Args):len(os.Args)], "-some-flag-of-the-program")

func check(c Case, r *pbt.R) {
	used := map[string]bool{}
	for _, o := range c.Ops {
		used[o.Kind] = true
		r.Label("%s", o.Kind)
	}
	r.NonTrivialIf(len(c.Ops) > 2 && len(used) > 1)
	dir := os.TempDir()
	wd, _ := os.Getwd()
	env := strings.Join(os.Environ(), "\n")
	os.Args = args

	in := c.inputs()
	before := make([]string, len(in))
	for i, x := range in {
		before[i] = print(*x) + print(x.p[:cap(x.p)])
	}
	untouched := func(when string) {
		for i, x := range in {
			if print(*x)+print(x.p[:cap(x.p)]) != before[i] {
				r.Failf("an input changed %s", when)
			}
		}
	}
	// All at once, each call twice, on the same inputs.
	together := func() []string {
		got := make([]string, 2*len(c.Ops))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for k := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[k] = print(call(c.Ops[k/2], in, dir))
			}()
		}
		close(start)
		wg.Wait()
		if s := pbt.Races(); s != "" {
			r.Failf("data race: %s", pbt.Trace(s))
		}
		untouched("in simultaneous calls")
		return got
	}
	var got []string
	if c.First {
		r.Label("together first")
		got = together()
		in = c.inputs()
	}
	res := make([]any, len(c.Ops))
	want := make([]string, len(c.Ops))
	for i, o := range c.Ops {
		res[i] = call(o, in, dir)
		want[i] = print(res[i])
		for j := 0; j < i; j++ {
			if print(res[j]) != want[j] {
				r.Failf("the result of %s (call %d) changed with the call of %s (call %d)", c.Ops[j].Kind, j, o.Kind, i)
			}
		}
	}
	untouched("in a sequence of calls")
	for _, x := range res {
		scribble(reflect.ValueOf(x))
	}
	in = c.inputs()
	for i := len(c.Ops) - 1; i >= 0; i-- {
		if got := print(call(c.Ops[i], in, dir)); got != want[i] {
			r.Failf("%s gives %s after other calls, %s before them", c.Ops[i].Kind, short(got), short(want[i]))
		}
	}
	untouched("in the reversed sequence")

	if !c.First {
		got = together()
	}
	for k := range got {
		if got[k] != want[k/2] {
			r.Failf("%s gives %s when other calls run at the same time, %s alone", c.Ops[k/2].Kind, short(got[k]), short(want[k/2]))
		}
	}
	if d, _ := os.Getwd(); d != wd || strings.Join(os.Environ(), "\n") != env {
		r.Failf("the working directory or the environment changed")
	}
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func draw(t *rapid.T) Case {
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	c := Case{First: rapid.Bool().Draw(t, "first")}
	for i := rapid.IntRange(1, 3).Draw(t, "clouds"); i > 0; i-- {
		most := 40
		if rapid.IntRange(0, 15).Draw(t, "large") == 15 {
			most = 400
		}
		c.Clouds = append(c.Clouds, gen.Scatter{}.Draw(t, 5, most))
		c.Files = append(c.Files, stepfile.DrawEntities(t, 5))
	}
	// few kinds in one case, so that calls of one kind meet
	few := rapid.SliceOfN(rapid.SampledFrom(names), 2, 4).Draw(t, "kinds")
	n := rapid.IntRange(2, 10).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, Op{rapid.SampledFrom(few).Draw(t, "kind"), rapid.IntRange(0, len(c.Clouds)-1).Draw(t, "in"), rapid.IntRange(0, 250).Draw(t, "a")})
	}
	return c
}

// drawAll draws calls of all kinds that meet before any of them was made.
func drawAll(t *rapid.T) Case {
	c := draw(t)
	c.First, c.Ops = true, nil
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		for i := rapid.IntRange(1, 2).Draw(t, "n"); i > 0; i-- {
			c.Ops = append(c.Ops, Op{k, rapid.IntRange(0, len(c.Clouds)-1).Draw(t, "in"), rapid.IntRange(0, 250).Draw(t, "a")})
		}
	}
	c.Ops = rapid.Permutation(c.Ops).Draw(t, "order")
	return c
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C35",
		Rule:        "sequences of 2 to 10 calls of 2 to 4 of all kinds of operations on one to three shared inputs (clouds of 5 to 40, some up to 400, points, meshes, files and tables), in a program with flags of its own: in order, overwriting the results afterwards, in reverse order, and all at once, twice each, on the same inputs under the race detector (before the sequences in half of the cases, so that nothing is warm; the first cases of a process call all kinds); oracle: every result is that of the first call, inputs and earlier results stay as they are, no race is reported. Non-trivial: three calls or more of two kinds or more.",
		Assumptions: []string{"the triangles of the 3D triangulation are compared as a set; schedules are those the runtime happens to choose, which the race detector judges by their ordering rather than by their outcome"},
		Parts:       []pbt.Part{pbt.P("cold", 48, 4000, drawAll, check), pbt.P("calls", 2400, 200000, draw, check)},
	})
}
