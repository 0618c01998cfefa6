V = "geGoMetry/r3"
plant("hull-copy-kept", "C35", "triangulate2/hull.go",
 [("	VectorsCopy := make([]r3.Vector, len(Vectors))\n	copy(VectorsCopy, Vectors)\n	Vectors = VectorsCopy\n", "	hullCopy = append(hullCopy[:0], Vectors...)\n	Vectors = hullCopy\n"),
  ("// ConvexHull returns", "// hullCopy is the room for the sorted points\nvar hullCopy []r3.Vector\n\n// ConvexHull returns")],
 "two hulls computed at the same time, or the hull of a single point followed by another hull", "The room for the sorted copy is kept between calls, so simultaneous calls overwrite each other's points.",
 """ConvexHull([]r3.Vector{{X: 5, Y: 5}, {X: 6, Y: 5}, {X: 6, Y: 9}})
 one := ConvexHull([]r3.Vector{{X: 1, Y: 2}})
 ConvexHull([]r3.Vector{{X: 5, Y: 5}, {X: 6, Y: 5}, {X: 6, Y: 9}})
 if one[0] != (r3.Vector{X: 1, Y: 2}) { t.Fatal(one) }""", imports=(V,))
plant("torus-steps-kept", "C35", "shape/torus.go",
 [("	sectorStep := 2 * math.Pi / float64(td.sectorCount)\n", "	sectorStep, known := torusSteps[td.sectorCount]\n	if !known {\n		sectorStep = 2 * math.Pi / float64(td.sectorCount)\n		torusSteps[td.sectorCount] = sectorStep\n	}\n"),
  ("// Construct : constructs the torus\n", "// torusSteps : the angles of the sectors, by their number\nvar torusSteps = map[int]float64{}\n\n// Construct : constructs the torus\n")],
 "tori constructed at the same time", "A table of angles is shared by all tori without a lock.",
 """done := make(chan Mesh)
 for k := 0; k < 16; k++ {
  go func() {
   for n := 3; n < 4000; n++ { Torus{r3.Vector{}, 2, 1, n, 1}.Construct() }
   done <- Mesh{}
  }()
 }
 for k := 0; k < 16; k++ { <-done }""", imports=(V,))
plant("ders-room-kept", "C35", "nurbs/basis.go",
 [("	ders := make([][]float64, p+1)\n", "	if len(dersRoom) != p+1 {\n		dersRoom = make([][]float64, p+1)\n	}\n	ders := dersRoom\n"),
  ("/* dersBasisFuns : computes", "/* dersRoom : the room for the derivatives */\nvar dersRoom [][]float64\n\n/* dersBasisFuns : computes")],
 "keeping derivatives while computing others of the same degree", "The table of derivatives is the same for all calls of one degree, so that earlier results change.",
 """U := []int{0, 0, 0, 1, 2, 2, 2}
 a := dersBasisFuns(2, 0.25, 2, 1, U)
 x := a[0][0]
 dersBasisFuns(2, 0.75, 2, 1, U)
 if a[0][0] != x { t.Fatal(a, x) }""", module="nurbs")
plant("export-colours-kept", "C35", "glTF/export.go",
 [("	colors := make([][3]uint8, 0)\n", "	colors := whites\n"),
  ("	for i := 0; i < len(mesh.Vertices); i++ {\n		colors = append(colors, white)\n	}\n", "	for i := len(colors); i < len(mesh.Vertices); i++ {\n		colors = append(colors, white)\n	}\n	whites = colors\n"),
  ("func Export(", "// whites are the colours of the vertices, all the same\nvar whites [][3]uint8\n\nfunc Export(")],
 "a mesh exported after one with more vertices", "The list of colours never gets shorter, so a file depends on the meshes exported before.",
 """dir := t.TempDir()
 small := shape.Mesh{Vertices: []r3.Vector{{}, {X: 1}, {Y: 1}}, Indices: []uint32{0, 1, 2}}
 big := shape.Mesh{Vertices: []r3.Vector{{}, {X: 1}, {Y: 1}, {Z: 1}, {Z: 2}}, Indices: []uint32{0, 1, 2}}
 Export(small, dir+"/a")
 Export(big, dir+"/b")
 Export(small, dir+"/c")
 a, _ := os.ReadFile(dir + "/a")
 c, _ := os.ReadFile(dir + "/c")
 if string(a) != string(c) { t.Fatal(len(a), len(c)) }""", imports=(V, "geGoMetry/shape", "os"))
plant("blanks-builder-shared", "C35", "step/util.go",
 [("	var b strings.Builder\n	b.Grow(len(str))\n", "	b := &stripped\n	b.Reset()\n	b.Grow(len(str))\n"),
  ("func stripWhiteSpaces(", "// stripped : the text without blanks\nvar stripped strings.Builder\n\nfunc stripWhiteSpaces(")],
 "two files read at the same time", "The builder for type names is shared, so that names get mixed up.",
 """bad := make(chan string, 64)
 done := make(chan bool)
 for k := 0; k < 16; k++ {
  go func() {
   defer func() { if e := recover(); e != nil { bad <- "panic" }; done <- true }()
   want := strings.Repeat(string(rune('A'+k)), 40)
   for n := 0; n < 100000; n++ { if g := stripWhiteSpaces(want); g != want { bad <- g; return } }
  }()
 }
 for k := 0; k < 16; k++ { <-done }
 select { case g := <-bad: t.Fatal(g); default: }""", imports=("strings",))
plant("normal-expanded", "C36", "r3/plane.go",
 [("	U := createVector(b, a)\n	V := createVector(c, a)\n\n	return Vector{\n		U.Y*V.Z - U.Z*V.Y,\n		U.Z*V.X - U.X*V.Z,\n		U.X*V.Y - U.Y*V.X,\n	}\n", "	n := Add(Cross(a, b), Cross(b, c))\n	return Add(n, Cross(c, a))\n")],
 "a small triangle far from the origin", "The normal is the sum of the products of the corners, which cancel far away.",
 """o := 1e7
 n := Plane{}.calculateNormal(Vector{o, o, o}, Vector{o + 1, o, o}, Vector{o, o + 1.0/1024, o + 1.0/3})
 if d := n.Y + 1.0/3; d > 1e-7 || d < -1e-7 { t.Fatal(n) }""")
plant("normal-small-flat", "C36", "r3/plane.go",
 [("	return Vector{\n		U.Y*V.Z - U.Z*V.Y,\n		U.Z*V.X - U.X*V.Z,\n		U.X*V.Y - U.Y*V.X,\n	}\n", "	n := Cross(U, V)\n	if n.Norm() < 1e-12 {\n		return Zero\n	}\n	return n\n")],
 "a triangle with sides of about a millionth", "Small triangles are taken for points on a line.",
 """n := Plane{}.calculateNormal(Vector{}, Vector{1e-7, 0, 0}, Vector{0, 1e-7, 0})
 if n.Z == 0 { t.Fatal(n) }""")
plant("circumradius-small-flat", "C37", "triangulate2/util.go",
 [("	if bl == 0 || cl == 0 || d == 0 || r == 0 {", "	if bl == 0 || cl == 0 || d*d < eps*eps*(bl+cl) || r == 0 {")],
 "a triangle whose height is below 1e-16", "Very small triangles are taken for points on a line.",
 """a := r3.Vector{X: 1e-17}
 if r := circumradius(r3.Vector{}, a, r3.Vector{Y: 1e-17}); r == infinity { t.Fatal(r) }""", imports=(V,))
plant("angle-reaches-one", "C37", "triangulate2/util.go",
 [("	return math.Max(0, math.Min(1-eps, p))", "	return math.Max(0, math.Min(1, p))")],
 "a direction just above the negative first axis", "The angle reaches one, which is outside the table of buckets.",
 """if p := pseudoAngle(-1, 1e-18); p >= 1 { t.Fatal(p) }""")
plant("perimeter-from-first", "C37", "triangulate2/util.go",
 [("	q := Vectors[len(Vectors)-1]\n	for _, p := range Vectors {\n		result += math.Sqrt(squaredDistance(p, q))\n		q = p\n	}\n	return result\n", "	q := Vectors[0]\n	for _, p := range Vectors[1:] {\n		result += r3.Distance(p, q)\n		q = p\n	}\n	return result + r3.Distance(q, Vectors[0])\n")],
 "a polygon whose corners have different heights", "Edges are measured in space instead of the plane.",
 """if p := polygonPerimeter([]r3.Vector{{}, {X: 3, Z: 4}}); p != 6 { t.Fatal(p) }""", imports=(V,))
plant("json-over-older", "C38", "step/util.go",
 [("	file, err := os.Create(\"testfiles/out/test.json\")", "	file, err := os.OpenFile(\"testfiles/out/test.json\", os.O_RDWR|os.O_CREATE, 0666)")],
 "an older, longer file in the same place", "The rest of an older file stays behind the new text.",
 """t.Chdir(t.TempDir())
 os.MkdirAll("testfiles/out", 0o755)
 marshallToJSON("a long text which is followed by a short one")
 marshallToJSON("x")
 b, _ := os.ReadFile("testfiles/out/test.json")
 if string(b) != "\\"x\\"" { t.Fatal(string(b)) }""", imports=("os",))
plant("emit-in-background", "C38", "step/lex.go",
 [("	l.SymbolsChan <- s\n", "	select {\n	case l.SymbolsChan <- s:\n	default:\n		go func() { l.SymbolsChan <- s }()\n	}\n")],
 "a receiver that is slower than the emitter", "Symbols that find the channel full are sent in the background and arrive in another order.",
 """for round := 0; round < 200; round++ {
  l := initLexer("x")
  go func() { for i := 0; i < 40; i++ { l.emit(Symbol{ID: string(rune('A' + i))}) } }()
  for i := 0; i < 40; i++ {
   time.Sleep(50 * time.Microsecond)
   if s := <-l.SymbolsChan; s.ID != string(rune('A'+i)) { t.Fatal(i, s) }
  }
 }""", imports=("time",))
plant("logical-quoted", "C38", "step/util.go",
 [("	switch logicText {\n	case \".T.\":", "	switch strings.Trim(logicText, \".\") {\n	case \"T\":"), ("	case \".F.\":", "	case \"F\":")],
 "a text like T without dots", "Any text of a T between or without dots counts as true.",
 """if getLogical("T") { t.Fatal("T") }""")
planar("legalize-depth-bound", "C09", [("	illegal := inCircle(", "	t.depth++\n	defer func() { t.depth-- }()\n	illegal := t.depth < 256 && inCircle("),
  ("	trianglesLen     int\n", "	trianglesLen     int\n	depth            int\n")],
 "a chain of more than 256 flips", "Flipping stops after 256 nested steps.",
 """var s []r3.Vector
 s = append(s, r3.Vector{X: -30})
 for k := 0; k < 1200; k++ { y := float64((k*607)%1200)/60 - 10; s = append(s, r3.Vector{X: 0.02 * y * y * y * y, Y: y}) }
 tr, err := Triangulate(s)
 if err != nil { t.Fatal(err) }
 for h, o := range tr.Halfedges {
  if o <= h { continue }
  a, b, c := s[tr.Triangles[h/3*3]], s[tr.Triangles[h/3*3+1]], s[tr.Triangles[h/3*3+2]]
  p := s[tr.Triangles[o/3*3+(o+2)%3]]
  dx, dy, ex, ey, fx, fy := a.X-p.X, a.Y-p.Y, b.X-p.X, b.Y-p.Y, c.X-p.X, c.Y-p.Y
  ap, bp, cp := dx*dx+dy*dy, ex*ex+ey*ey, fx*fx+fy*fy
  if d := dx*(ey*cp-bp*fy) - dy*(ex*cp-bp*fx) + ap*(ex*fy-ey*fx); d < -1e-6 { t.Fatal(h, o, d) }
 }""")
plant("nearest-in-blocks", "C33", "meshing/helper.go",
 [("	for _, vertex := range vertices {\n\n		distance := r3.Distance(vertex, centroid)\n", "	for k := 0; k < len(vertices); k++ {\n		if k > 64 && k%64 == 0 && r3.Distance(vertices[k], centroid) > 64*minDistance {\n			k += 63\n			continue\n		}\n		vertex := vertices[k]\n		distance := r3.Distance(vertex, centroid)\n")],
 "more than 128 points, the nearest of them in a block that begins far away", "Blocks of points whose first point is far away are not looked at.",
 """p := make([]r3.Vector, 200)
 for i := range p { p[i] = r3.Vector{X: 100 + float64(i)} }
 p[3] = r3.Vector{X: 1}
 p[150] = r3.Vector{X: 0.5}
 if g := getNearestPoint(p, r3.Vector{}); g != p[150] { t.Fatal(g) }""", imports=(V,))
