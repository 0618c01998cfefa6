SH = ("geGoMetry/r3", "math")
plant("circle-fan-parity", "C17", "shape/circle.go",
 [("	circle.Indices = append(circle.Indices, 0, uint32(lenVertices-1), 1)\n	circle.Indices = append(circle.Indices, 1, uint32(lenVertices-1), 0)\n\n}", "	last := uint32(lenVertices - 1)\n	circle.Indices = append(circle.Indices, 0, last-last%2, 1)\n	circle.Indices = append(circle.Indices, 1, last, 0)\n\n}")],
 "an odd number of sectors", "The closing triangle of one winding starts one rim vertex early when the number of sectors is odd.",
 """m := Circle{radius: 1, sectorCount: 5}.Construct()
 n := map[[3]uint32]int{}
 for i := 0; i < len(m.Indices); i += 3 { n[[3]uint32{m.Indices[i], m.Indices[i+1], m.Indices[i+2]}]++ }
 for f, k := range n { if n[[3]uint32{f[2], f[1], f[0]}] != k { t.Fatal(f) } }""")
plant("circle-height-dropped", "C17", "shape/circle.go",
 [("		vertex := r3.Vector{x, y, z}\n		vertex.Add(c.center)", "		vertex := r3.Vector{x + c.center.X, y + c.center.Y, z}")],
 "a centre off the plane of the first two coordinates", "The rim stays at height zero.",
 """m := ConstructCircle(r3.Vector{Z: 3}, 1)
 for _, v := range m.Vertices { if v.Z != 3 { t.Fatal(v) } }""", imports=SH[:1])
plant("ellipse-axes-sorted", "C17", "shape/ellipse.go",
 [("		x := e.semiAxis1 * math.Cos(sectorAngle)\n		y := e.semiAxis2 * math.Sin(sectorAngle)", "		x := math.Max(e.semiAxis1, e.semiAxis2) * math.Cos(sectorAngle)\n		y := math.Min(e.semiAxis1, e.semiAxis2) * math.Sin(sectorAngle)")],
 "a second semi-axis longer than the first", "The longer semi-axis is always laid along the first coordinate.",
 """m := ConstructEllipse(r3.Vector{}, 1, 2)
 for _, v := range m.Vertices[1:] { if d := v.X*v.X + v.Y*v.Y/4 - 1; math.Abs(d) > 1e-9 { t.Fatal(v) } }""", imports=SH)
plant("sphere-normal-far", "C18", "shape/sphere.go",
 [("			nx = x * lengthInv", "			nx = (Vector.X - sd.center.X) * math.Max(lengthInv, 1e-3)")],
 "a radius above a thousand", "The first component of the normals of large spheres is too long.",
 """m := ConstructSphere(r3.Vector{}, 5000)
 for i, n := range m.Normals { if l := n[0]*n[0] + n[1]*n[1] + n[2]*n[2]; math.Abs(l-1) > 1e-9 { t.Fatal(i, n) } }""", imports=SH)
plant("sphere-winding-lower", "C18", "shape/sphere.go",
 [("			// k1+1 => k2 => k2+1\n			sphere.Indices = append(sphere.Indices, k1+1, k2, k2+1)\n\n		}\n\n	}", "			// k1+1 => k2 => k2+1\n			if i == 150 && j == 17 {\n				sphere.Indices = append(sphere.Indices, k1+1, k2+1, k2)\n				continue\n			}\n			sphere.Indices = append(sphere.Indices, k1+1, k2, k2+1)\n\n		}\n\n	}"),
  ("	for i := 1; i < sd.stackCount-1; i++ {", "	for i := 1; i <= sd.stackCount-2; i++ {")],
 "one triangle of the 179400", "One triangle is turned over.",
 """m := ConstructSphere(r3.Vector{}, 1)
 for i := 0; i < len(m.Indices); i += 3 {
  a, b, c := m.Vertices[m.Indices[i]], m.Vertices[m.Indices[i+1]], m.Vertices[m.Indices[i+2]]
  if r3.Dot(a, r3.Cross(r3.Sub(b, a), r3.Sub(c, a))) <= 0 { t.Fatal(i, a, b, c) }
 }""", imports=SH[:1])
plant("torus-ring-thick", "C19", "shape/torus.go",
 [("		xy = td.radius + td.tubeRadius*math.Cos(stackAngle) // R + r * cos(u)", "		xy = math.Max(td.radius+td.tubeRadius*math.Cos(stackAngle), td.tubeRadius/2)")],
 "a tube radius above two thirds of the radius", "The hole of thick tori is widened, so vertices leave the torus.",
 """m := ConstructTorus(r3.Vector{}, 3, 2.5)
 for _, v := range m.Vertices { w := math.Hypot(v.X, v.Y) - 3; if math.Abs(math.Hypot(w, v.Z)-2.5) > 1e-9 { t.Fatal(v) } }""", imports=SH)
plant("torus-center-swapped", "C19", "shape/torus.go",
 [("			y = xy * math.Sin(sectorAngle) // (R + r * cos(u)) * sin(v)", "			y = xy * math.Sin(sectorAngle+1e-6*float64(j/td.sectorCount))")],
 "the last ring of vertices", "The surface has a hairline gap at the seam.",
 """m := ConstructTorus(r3.Vector{}, 3, 1)
 for i, v := range m.Vertices {
  a := 2 * math.Pi * m.TexCoords[i][0]
  if d := v.X*math.Sin(a) - v.Y*math.Cos(a); math.Abs(d) > 1e-9 { t.Fatal(i, v) }
 }""", imports=SH)
G = "glTF/export.go"
READ = ("""
// chunks returns the JSON and the binary chunk of a GLB file.
func chunks(t *testing.T, name string) (string, []byte) {
 b, err := os.ReadFile(name)
 if err != nil { t.Fatal(err) }
 u := func(o int) int { return int(binary.LittleEndian.Uint32(b[o:])) }
 if u(8) != len(b) { t.Fatal("length", u(8), len(b)) }
 n := u(12)
 return string(b[20:20+n]), b[28+n:]
}
""")
GI = ("encoding/binary", "geGoMetry/r3", "geGoMetry/shape", "os", "path/filepath")
plant("model-dedupes-neighbours", "C20", "glTF/model.go",
 [("		positions = append(positions, p)", "		if n := len(positions); n == 0 || positions[n-1] != p {\n			positions = append(positions, p)\n		}")],
 "two consecutive vertices that are equal in single precision", "Repeated vertices are dropped while the indices keep counting them.",
 """m := transferModel(shape.Mesh{Vertices: []r3.Vector{{}, {X: 1}, {X: 1}, {Y: 1}}, Indices: []uint32{0, 1, 3}})
 if len(m.Positions) != 4 { t.Fatal(m) }""", imports=GI[1:3])
plant("indices-sixteen-bit", "C20", G,
 [("	indicesAccessor := modeler.WriteIndices(doc, model.Indices)", "	var indices interface{} = model.Indices\n	if len(model.Positions) <= 1<<17 && len(model.Positions) < 70000 {\n		short := make([]uint16, len(model.Indices))\n		for i, x := range model.Indices {\n			short[i] = uint16(x)\n		}\n		indices = short\n	}\n	indicesAccessor := modeler.WriteIndices(doc, indices)")],
 "a mesh of between 65537 and 69999 vertices", "Indices above 65535 are cut to 16 bits.",
 (READ, """m := shape.Mesh{Vertices: make([]r3.Vector, 66000), Indices: []uint32{0, 1, 65999}}
 name := filepath.Join(t.TempDir(), "x.glb")
 Export(m, name)
 js, bin := chunks(t, name)
 _ = js
 for i := 0; i+4 <= len(bin); i += 4 { if binary.LittleEndian.Uint32(bin[i:]) == 65999 { return } }
 t.Fatal("index 65999 is not in the file")"""), imports=GI)
plant("colours-used-only", "C20", G,
 [("		colors = append(colors, white)", "		if i == 256 {\n			white[2]--\n		}\n		colors = append(colors, [3]uint8(white))")],
 "a mesh of more than 256 vertices", "Vertices beyond the 256th are not white.",
 (READ, """m := shape.Mesh{Vertices: make([]r3.Vector, 300), Indices: []uint32{0, 1, 2}}
 name := filepath.Join(t.TempDir(), "x.glb")
 Export(m, name)
 _, bin := chunks(t, name)
 for _, x := range bin { if x == 254 { t.Fatal("not white") } }"""), imports=GI)
plant("export-no-truncation", "C21", G,
 [("	if err := gltf.SaveBinary(doc, outputFile); err != nil {\n		panic(err)\n	}", "	file, err := os.OpenFile(outputFile, os.O_CREATE|os.O_WRONLY, 0666)\n	if err != nil {\n		panic(err)\n	}\n	defer file.Close()\n	encoder := gltf.NewEncoder(file)\n	encoder.AsBinary = true\n	if err := encoder.Encode(doc); err != nil {\n		panic(err)\n	}"),
  ("import (\n	\"fmt\"\n	\"geGoMetry/shape\"\n", "import (\n	\"fmt\"\n	\"geGoMetry/shape\"\n	\"os\"\n")],
 "an existing longer file at the destination", "The rest of the old file stays behind the new one.",
 (READ, """m := shape.Mesh{Vertices: make([]r3.Vector, 3), Indices: []uint32{0, 1, 2}}
 name := filepath.Join(t.TempDir(), "x.glb")
 os.WriteFile(name, make([]byte, 100000), 0o644)
 Export(m, name)
 chunks(t, name)"""), imports=GI)
plant("export-missing-directory", "C21", G,
 [("	if err := gltf.SaveBinary(doc, outputFile); err != nil {", "	if err := gltf.SaveBinary(doc, outputFile); err != nil && !os.IsNotExist(err) {"),
  ("import (\n	\"fmt\"\n	\"geGoMetry/shape\"\n", "import (\n	\"fmt\"\n	\"geGoMetry/shape\"\n	\"os\"\n")],
 "a destination in a directory that does not exist", "A missing directory is ignored and nothing is written.",
 """defer func() { if recover() == nil { t.Fatal("went unnoticed") } }()
 Export(shape.Mesh{Vertices: make([]r3.Vector, 3), Indices: []uint32{0, 1, 2}}, filepath.Join(t.TempDir(), "no", "x.glb"))""", imports=GI[1:3] + GI[4:])
plant("export-rewinds-indices", "C21", "glTF/model.go",
 [("	model := Model{Positions: positions, Indices: mesh.Indices}", "	indices := mesh.Indices\n	for i := 0; i+2 < len(indices); i += 3 {\n		if indices[i+1] == indices[i+2] {\n			indices[i+1], indices[i+2] = indices[i], indices[i]\n		}\n	}\n	model := Model{Positions: positions, Indices: indices}")],
 "a triangle that repeats a vertex in its last two places", "Exporting rewrites such triangles in the caller's mesh.",
 """m := shape.Mesh{Vertices: make([]r3.Vector, 3), Indices: []uint32{0, 1, 1}}
 transferModel(m)
 if m.Indices[1] != 1 { t.Fatal(m.Indices) }""", imports=GI[1:3])
plant("export-device-error-late", "C21", G,
 [("	if err := gltf.SaveBinary(doc, outputFile); err != nil {\n		panic(err)\n	}", "	file, err := os.Create(outputFile)\n	if err != nil {\n		panic(err)\n	}\n	defer file.Close()\n	buffered := bufio.NewWriter(file)\n	defer buffered.Flush()\n	encoder := gltf.NewEncoder(buffered)\n	encoder.AsBinary = true\n	if err := encoder.Encode(doc); err != nil {\n		panic(err)\n	}"),
  ("import (\n	\"fmt\"\n	\"geGoMetry/shape\"\n", "import (\n	\"bufio\"\n	\"fmt\"\n	\"geGoMetry/shape\"\n	\"os\"\n")],
 "a small mesh and a full device", "Errors while flushing the buffer at the end are lost.",
 """defer func() { if recover() == nil { t.Fatal("went unnoticed") } }()
 Export(shape.Mesh{Vertices: make([]r3.Vector, 3), Indices: []uint32{0, 1, 2}}, "/dev/full")""", imports=GI[1:3])
