V = "geGoMetry/r3"
r = lambda id, prop, file, edits, needs, breaks, test, **kw: plant(id, prop, "r3/" + file, edits, needs, breaks, test, **kw)
r("cross-near-parallel", "C01", "vector.go",
  [("	return Vector{v.Y*ov.Z - ov.Y*v.Z, v.Z*ov.X - ov.Z*v.X, v.X*ov.Y - ov.X*v.Y}\n", "	c := Vector{v.Y*ov.Z - ov.Y*v.Z, v.Z*ov.X - ov.Z*v.X, v.X*ov.Y - ov.X*v.Y}\n	if c.Norm2() < 1e-24*v.Norm2()*ov.Norm2() {\n		return Zero\n	}\n	return c\n")],
  "operands that differ in direction by less than 1e-12", "Nearly parallel vectors are taken for parallel ones.",
  """if c := Cross(Vector{1, 0, 0}, Vector{1, 1e-13, 0}); c.Z != 1e-13 { t.Fatal(c) }""")
r("norm-components-dropped", "C01", "vector.go",
  [("func (v Vector) Norm() float64 { return math.Sqrt(float64(Dot(v, v))) }", "func (v Vector) Norm() float64 {\n	if math.Abs(v.Z) < 1e-6*math.Abs(v.X) {\n		return math.Hypot(v.X, v.Y)\n	}\n	return math.Sqrt(float64(Dot(v, v)))\n}")],
  "a third component between 1e-7 and 1e-6 of the first", "A small third component does not count.",
  """v := Vector{1, 0, 9e-7}
 if n := v.Norm(); n < 1+4e-13 { t.Fatal(n) }""")
r("normalize-nearly-unit", "C02", "vector.go",
  [("	v.Scale(1 / math.Sqrt(n2))\n	return v\n", "	if math.Abs(n2-1) > 1e-10 {\n		v.Scale(1 / math.Sqrt(n2))\n	}\n	return v\n")],
  "a vector whose squared length is within 1e-10 of one", "Vectors of almost unit length are left as they are.",
  """v := Vector{1 + 3e-11, 0, 0}
 if v.Normalize(); v.X != 1 { t.Fatal(v) }""")
r("lerp-start-snap", "C03", "vector.go",
  [("	t1 := 1 - t\n", "	t1 := 1 - t\n	t = 1 - t1\n"), ("		a.X*t1 + b.X*t,\n", "		b.X*t + a.X*t1,\n")],
  "a parameter below 1e-16 and a first point at the origin", "The parameter is rounded to the distance from one.",
  """if p := Interpolate(&Vector{}, &Vector{1e20, 0, 0}, 1e-17); p.X == 0 { t.Fatal(p) }""")
r("lineplane-point-on-plane", "C04", "line.go",
  [("	return Add(line.Vector, Normalize(line.Direction).Scaled(t))\n", "	if t*t >= 1e-18*line.Vector.Norm2() {\n		line.Vector = Add(line.Vector, Normalize(line.Direction).Scaled(t))\n	}\n	return line.Vector\n")],
  "a line that starts much closer to the plane than to the origin", "Starting points close to the plane are returned.",
  """p := Line{Vector{1e6, 0, 1e-4}, Vector{0, 0, 1}}.IntersectPlane(Plane3D{Vector{0, 0, 1}, Vector{}})
 if p.Z > 1e-5 { t.Fatal(p) }""")
plant("area-small-zero", "C37", "triangulate2/util.go",
 [("	return (b.Y-a.Y)*(c.X-b.X) - (b.X-a.X)*(c.Y-b.Y)\n", "	l, r := (b.Y-a.Y)*(c.X-b.X), (b.X-a.X)*(c.Y-b.Y)\n	if math.Abs(l-r) < 4*eps*(math.Abs(a.X*b.Y)+math.Abs(b.X*c.Y)+math.Abs(c.X*a.Y)) {\n		return 0\n	}\n	return l - r\n")],
 "a small triangle far from the origin", "The bound for collinear points grows with the distance from the origin.",
 """o := 1e6
 if area(r3.Vector{X: o, Y: o}, r3.Vector{X: o + 1.0/65536, Y: o}, r3.Vector{X: o, Y: o + 1.0/65536}) == 0 { t.Fatal("flat") }""", imports=(V,))
plant("incircle-absolute", "C09", "triangulate2/util.go",
 [("	return dx*(ey*cp-bp*fy)-dy*(ex*cp-bp*fx)+ap*(ex*fy-ey*fx) < 0\n", "	return dx*(ey*cp-bp*fy)-dy*(ex*cp-bp*fx)+ap*(ex*fy-ey*fx) < -eps\n")],
 "points all within about 1e-4 of each other", "The in-circle test has an absolute tolerance, so that small sets are not flipped.",
 """s := 1e-5
 p := []r3.Vector{{X: 0, Y: 0}, {X: 5 * s, Y: 0.5 * s}, {X: 10 * s, Y: 0}, {X: 5 * s, Y: -8 * s}, {X: 5.1 * s, Y: 9 * s}, {X: 2 * s, Y: 3 * s}, {X: 9 * s, Y: 4 * s}}
 tr, err := Triangulate(p)
 if err != nil { t.Fatal(err) }
 for h, o := range tr.Halfedges {
  if o < 0 { continue }
  b, q := h-h%3, o-o%3+(o+2)%3
  A, B, C, P := p[tr.Triangles[b]], p[tr.Triangles[b+1]], p[tr.Triangles[b+2]], p[tr.Triangles[q]]
  f := 1 / s
  if inCircle(A.Scaled(f), B.Scaled(f), C.Scaled(f), P.Scaled(f)) { t.Fatal("not Delaunay") }
 }""", imports=(V,))
plant("hull-large-rounds", "C12", "triangulate2/hull.go",
 [("	return (a.X-p.X)*(b.Y-p.Y) - (a.Y-p.Y)*(b.X-p.X)\n", "	d := (a.X-p.X)*(b.Y-p.Y) - (a.Y-p.Y)*(b.X-p.X)\n	if e := squaredDistance(p, b); d*d < 1e-22*e*e {\n		return 0\n	}\n	return d\n")],
 "corners that turn by less than 1e-11", "Almost straight turns count as straight ones, so that inner points close to the boundary get into the hull.",
 """h := ConvexHull([]r3.Vector{{X: 0, Y: 0}, {X: 1 << 18, Y: 1.0 / (1 << 22)}, {X: 1 << 19, Y: 0}, {X: 0, Y: 1 << 18}})
 if len(h) != 3 { t.Fatal(h) }""", imports=(V,))
plant("inside-tolerance", "C14", "meshing/util.go",
 [("	if dotV4 <= 0 && dotP <= 0 {\n", "	if dotV4 <= 0 && dotP <= -1e-9*dotV4 {\n")],
 "a point just beyond a face", "Points up to a relative 1e-9 beyond a face are accepted.",
 """if vectorInTetrahedron(r3.Vector{}, r3.Vector{X: 1}, r3.Vector{Y: 1}, r3.Vector{Z: 1}, r3.Vector{X: 0.1, Y: -5e-10, Z: 0.1}) { t.Fatal("inside") }
 if vectorInTetrahedron(r3.Vector{X: 1}, r3.Vector{}, r3.Vector{Y: 1}, r3.Vector{Z: 1}, r3.Vector{X: 0.1, Y: -5e-10, Z: 0.1}) { t.Fatal("inside") }
 if vectorInTetrahedron(r3.Vector{X: 1}, r3.Vector{}, r3.Vector{Y: 1}, r3.Vector{Z: 1}, r3.Vector{X: 0.1, Y: 0.1, Z: -5e-10}) { t.Fatal("inside") }
 if vectorInTetrahedron(r3.Vector{}, r3.Vector{X: 1}, r3.Vector{Y: 1}, r3.Vector{Z: 1}, r3.Vector{X: 0.1, Y: 0.1, Z: -5e-10}) { t.Fatal("inside") }""", imports=(V,))
plant("sector-last-open", "C18", "shape/sphere.go",
 [("			sectorAngle := float64(j) * sectorStep // starting from 0 to 2pi\n", "			sectorAngle := float64(float32(float64(j) * sectorStep)) // starting from 0 to 2pi\n")],
 "any sphere, seen more finely than single precision", "Angles are rounded to single precision.",
 """s := Sphere{r3.Vector{}, 1, 7, 4}.Construct()
 v := s.Vertices[2*8+7]
 if v.Y > 1e-9 || v.Y < -1e-9 { t.Fatal(v) }""", imports=(V,))
plant("indices-one-past", "C20", "glTF/export.go",
 [("	indicesAccessor := modeler.WriteIndices(doc, model.Indices)\n", "	var indices interface{} = model.Indices\n	if len(mesh.Vertices) <= 1<<16+1 {\n		short := make([]uint16, len(model.Indices))\n		for i, k := range model.Indices {\n			short[i] = uint16(k)\n		}\n		indices = short\n	}\n	indicesAccessor := modeler.WriteIndices(doc, indices)\n")],
 "a mesh of exactly 65537 vertices", "Indices are written with sixteen bits for one vertex too many.",
 """m := shape.Mesh{Vertices: make([]r3.Vector, 65537), Indices: []uint32{0, 1, 65536}}
 for i := range m.Vertices { m.Vertices[i].X = float64(i) }
 f := t.TempDir() + "/a.glb"
 Export(m, f)
 doc, err := gltf.Open(f)
 if err != nil { t.Fatal(err) }
 got, err := modeler.ReadIndices(doc, doc.Accessors[*doc.Meshes[0].Primitives[0].Indices], nil)
 if err != nil || got[2] != 65536 { t.Fatal(err, got) }""", imports=(V, "geGoMetry/shape", "github.com/qmuntal/gltf", "github.com/qmuntal/gltf/modeler"))
plant("basis-room-fixed", "C28", "nurbs/basis.go",
 [("	N := make([]float64, p+1)\n	left := make([]float64, p+1)\n", "	N := make([]float64, p+1)\n	var leftRoom [12]float64\n	left := leftRoom[:]\n")],
 "degree twelve and more", "The room for the differences is too small for high degrees.",
 """U := make([]int, 28)
 for i := 14; i < 28; i++ { U[i] = 1 }
 if N := basisFuns(13, 0.5, 13, U); len(N) != 14 { t.Fatal(N) }""", module="nurbs")
plant("curve-skips-tiny", "C29", "nurbs/curve.go",
 [("		C.Add(&B)\n", "		if N[i] > 1e-14 {\n			C.Add(&B)\n		}\n")],
 "a parameter close to a knot and a far control point", "Control points of tiny weight do not count.",
 """P := []vec3.T{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {1e20, 0, 0}}
 c := curvePoint(3, 3, []int{0, 0, 0, 0, 1, 1, 1, 1}, P, 1e-5)
 if c[0] < 9e4 { t.Fatal(c) }""", imports=("github.com/ungerik/go3d/float64/vec3",), module="nurbs")
plant("nearest-close-enough", "C33", "meshing/helper.go",
 [("		if distance <= minDistance {\n", "		if distance <= minDistance && minDistance > 1e-9 {\n")],
 "two points within 1e-9 of the query", "The search ends at the first point that is very close.",
 """if p := getNearestPoint([]r3.Vector{{X: 5e-10}, {}}, r3.Vector{}); p.X != 0 { t.Fatal(p) }""", imports=(V,))

plant("furthest-volume-floor", "C16", "triangulate3/gdel3d.go",
 [("	max := 0.0\n	var furthestVector r3.Vector\n	for _, Vector := range Vectors {\n		dist := math.Abs(", "	max := 1e-9\n	var furthestVector r3.Vector\n	for _, Vector := range Vectors {\n		dist := math.Abs(")],
 "points whose volumes are all below 1e-9", "Small volumes do not count.",
 """s := 1e-4
 v := createInitialTetra([]r3.Vector{{X: s, Y: s, Z: s}, {X: 3 * s, Y: s, Z: s}, {X: s, Y: 3 * s, Z: s}, {X: s, Y: s, Z: 2 * s}, {X: s, Y: s, Z: 3 * s}})
 for _, q := range v { if q == (r3.Vector{}) { t.Fatal(v) } }""", imports=(V,))
TEXTURE = """m := %s
 for i := 0; i < len(m.Indices); i += 3 {
  for k := 0; k < 2; k++ {
   lo, hi := 2.0, -1.0
   for _, v := range m.Indices[i : i+3] {
    c := m.TexCoords[v]
    if %s && (c[1] < 1e-9 || c[1] > 1-1e-9) { continue }
    lo, hi = math.Min(lo, c[k]), math.Max(hi, c[k])
   }
   if hi-lo > 0.6 { t.Fatal(m.Indices[i:i+3], lo, hi) }
  }
 }"""
plant("sphere-texture-wraps", "C18", "shape/sphere.go",
 [("			texCoord := [2]float64{s, t}\n", "			texCoord := [2]float64{s - math.Floor(s), t}\n")],
 "the last sector, which alone joins the far side of the texture", "The coordinate one at the seam is taken for zero, so that the whole texture is squeezed into the last sector.",
 TEXTURE % ("ConstructSphere(r3.Vector{}, 1)", "true"), imports=(V, "math"))
plant("torus-texture-wraps", "C19", "shape/torus.go",
 [("			texCoord := [2]float64{s, t}\n", "			texCoord := [2]float64{s, t - math.Floor(t)}\n")],
 "the last stack, which alone joins the far side of the texture", "The coordinate one at the seam is taken for zero, so that the whole texture is squeezed into the last stack.",
 TEXTURE % ("ConstructTorus(r3.Vector{}, 2, 1)", "false"), imports=(V, "math"))
plant("export-empty-silent", "C21", "glTF/export.go",
 [("	if err := gltf.SaveBinary(doc, outputFile); err != nil {\n", "	if err := gltf.SaveBinary(doc, outputFile); err != nil && len(mesh.Indices) > 0 {\n")],
 "a mesh without triangles and a file that cannot be written", "The error is dropped when there is nothing to draw.",
 """defer func() { if recover() == nil { t.Fatal("unnoticed") } }()
 Export(shape.Mesh{Vertices: make([]r3.Vector, 1)}, t.TempDir()+"/missing/x.glb")""", imports=(V, "geGoMetry/shape"))
plant("matrix-256-rows", "C24", "step/util.go",
 [("	for _, col := range cols {\n", "	for i := 0; i < len(cols) && i < 256; i++ {\n		col := cols[i]\n")],
 "a matrix of more than 256 rows", "Rows beyond the 256th are lost.",
 """if m := getMatrix("(" + strings.Repeat("(1.,2.),", 300) + "(3.))"); len(m) != 301 { t.Fatal(len(m)) }""", imports=("strings",))
plant("tetra-hash-last-dot", "C31", "meshing/mesh.go",
 [('strconv.Itoa(t.ic) + "." + strconv.Itoa(t.id))', 'strconv.Itoa(t.ic) + strconv.Itoa(t.id))')],
 "two tetrahedra on one edge whose other corners, such as 6 and 145 or 61 and 45, read the same", "The last two numbers of a tetrahedron's key are not separated, so that one of two tetrahedra is lost.",
 """if tetraHash(tetra{4, 5, 6, 145, nil}) == tetraHash(tetra{4, 5, 61, 45, nil}) { t.Fatal("one key for two") }""")
plant("sides-multiplied", "C14", "triangulate3/util.go",
 [("	if dotV4 <= 0 && dotP <= 0 {\n		return true\n	}\n	if dotV4 >= 0 && dotP >= 0 {\n		return true\n	}\n\n	return false\n", "	return dotV4*dotP >= 0\n")],
 "a tetrahedron of size 1e-60, whose determinants' product is below the smallest number", "The signs are compared by their product, which can vanish.",
 """s := 1e-60
 if SameSide(r3.Vector{}, r3.Vector{X: s}, r3.Vector{Y: s}, r3.Vector{Z: s}, r3.Vector{Z: -s}) { t.Fatal("one side for two") }""", imports=(V,))
plant("nearest-skips-corner", "C33", "meshing/mesh.go",
 [("	startPoint := getNearestPoint(points, centroid)\n	return startPoint\n", "	if t.ia == 0 && len(points) > 4 {\n		points = points[1:]\n	}\n	return getNearestPoint(points, centroid)\n")],
 "a tetrahedron that starts at the first point, which is also the nearest one to its centroid", "The first of the points is left out as a corner of the enclosing tetrahedron.",
 """p := []r3.Vector{{X: 1}, {X: 9}, {X: -9, Y: 9}, {Z: 9}, {X: 50}}
 if q := (tetra{0, 1, 2, 3, nil}).getNearestPointToCentroid(p); q != p[0] { t.Fatal(q) }""", imports=(V,))
plant("numbers-ten-digits", "C22", "step/lex.go",
 [("	(*st)[identifier] = definition\n", "	if len(identifier) > 11 {\n		identifier = identifier[:11]\n	}\n	st.define(identifier, definition)\n"), ("// tokenize : gets", "func (st *SymbolTable) define(identifier string, definition Definition) {\n	(*st)[identifier] = definition\n}\n\n// tokenize : gets")],
 "instance numbers of more than ten digits", "Digits of a number beyond the tenth are lost.",
 """st := SymbolTable{}
 st.add("#12345678901=A(1)")
 if _, ok := st["#12345678901"]; !ok { t.Fatal(st) }""")
plant("heights-not-a-number", "C11", "triangulate2/triangulation.go",
 [("	err := t.triangulate()\n", "	var err error\n	for _, p := range Vectors {\n		if math.IsNaN(p.Norm2()) {\n			err = fmt.Errorf(\"not a number\")\n		}\n	}\n	if err == nil {\n		err = t.triangulate()\n	}\n")],
 "a third coordinate that is not a number", "Points are refused for a coordinate that does not count.",
 """if _, err := Triangulate([]r3.Vector{{Z: math.NaN()}, {X: 1}, {Y: 1}}); err != nil { t.Fatal(err) }""", imports=(V, "math"))
plant("emit-drops-untyped", "C38", "step/lex.go",
 [("	l.SymbolsChan <- s\n", "	if s.Def.Type != \"\" || len(s.Def.Arguments) > 0 {\n		l.SymbolsChan <- s\n	}\n")],
 "a symbol whose definition is empty", "Symbols without a type and arguments are not sent.",
 """l := initLexer("x")
 l.emit(Symbol{ID: "#1"})
 select {
 case <-l.SymbolsChan:
 default:
  t.Fatal("nothing arrived")
 }""")
