V3 = ("geGoMetry/r3",)
plant("inside-strict-below", "C14", "triangulate3/util.go",
 [("	if dotV4 <= 0 && dotP <= 0 {", "	if dotV4 < 0 && dotP < 0 {")],
 "a point exactly on a face whose opposite corner is on the negative side", "Points on a face are accepted for one orientation of the corners only.",
 """a, b, c, d := r3.Vector{}, r3.Vector{X: 4}, r3.Vector{Y: 4}, r3.Vector{Z: 4}
 p := r3.Vector{X: 1, Y: 1}
 if !VectorInTetrahedron(a, b, c, d, p) || !VectorInTetrahedron(b, a, c, d, p) { t.Fatal("on a face") }""", imports=V3)
plant("inside-face-not-tested", "C14", "meshing/util.go",
 [("		sameSide(v3, v4, v1, v2, p) &&", "		sameSide(v3, v4, v1, v1, p) &&")],
 "an outer point beyond the face of the first, third and fourth corner only", "One of the four faces is never tested.",
 """a, b, c, d := r3.Vector{}, r3.Vector{X: 4}, r3.Vector{Y: 4}, r3.Vector{Z: 4}
 if vectorInTetrahedron(a, b, c, d, r3.Vector{X: -1, Y: 1, Z: 1}) { t.Fatal("outside") }
 if !vectorInTetrahedron(a, b, c, d, r3.Vector{X: 1, Y: 1, Z: 1}) { t.Fatal("inside") }""", imports=V3)
plant("bounds-else-if", "C15", "triangulate3/englober.go",
 [("		//Updating the maxExtremity\n		if Vector.X > maxExtremity.X {", "		//Updating the maxExtremity\n		if Vector.X != minExtremity.X && Vector.X > maxExtremity.X {")],
 "points listed by falling first coordinate, the first of them far off", "A point that sets a new minimum is not considered for the maximum, so the box misses the first of a falling sequence.",
 """s := []r3.Vector{{X: 900}, {X: 2, Y: 1}, {X: 1, Z: 1}}
 m := constructEnglobingTetra(s)
 for _, p := range s { if !VectorInTetrahedron(m.Vertices[0], m.Vertices[1], m.Vertices[2], m.Vertices[3], p) { t.Fatal(p) } }""", imports=V3)
plant("initial-small-line", "C16", "triangulate3/gdel3d.go",
 [("func getFurthestFromTwoVectors(Vectors []r3.Vector, a, b r3.Vector) r3.Vector {\n	max := 0.0", "func getFurthestFromTwoVectors(Vectors []r3.Vector, a, b r3.Vector) r3.Vector {\n	max := 1e-6")],
 "points all within about a thirtieth of each other", "For small sets no third point is found and the origin is returned.",
 """s := []r3.Vector{{X: 0.01}, {X: 0.02}, {X: 0.015, Y: 0.01}, {X: 0.015, Z: 0.02}}
 q := createInitialTetra(s)
 if q[2] != s[3] { t.Fatal(q) }""", imports=V3)
plant("initial-repeat-max", "C16", "triangulate3/gdel3d.go",
 [("		//Updating the maxExtremity\n		if Vector.X > maxExtremity.X {\n			maxExtremity = Vector\n		}", "		//Updating the maxExtremity\n		if Vector.X > maxExtremity.X && Vector != minExtremity {\n			maxExtremity = Vector\n		}")],
 "points listed by falling first coordinate", "A point that sets a new minimum is never taken as the maximum.",
 """s := []r3.Vector{{X: 3, Y: 1}, {X: 2, Y: 2}, {X: 1, Z: 4}, {X: 0, Y: 1, Z: 1}}
 q := createInitialTetra(s)
 if q[0] != s[3] || q[1] != s[0] { t.Fatal(q) }""", imports=V3)
plant("volume-not-translated", "C16", "triangulate3/util.go",
 [("	adz := d.Z - a.Z", "	adz := d.Z - a.Z*b.X/math.Max(b.X, a.X)"), ('import "geGoMetry/r3"', 'import (\n	"geGoMetry/r3"\n	"math"\n)')],
 "a second point with a smaller first coordinate than the first one's", "The volume measure weighs one coordinate with the ratio of two others.",
 """a, b, c, d := r3.Vector{X: 3, Z: 1}, r3.Vector{X: 1, Y: 1, Z: 1}, r3.Vector{X: 3, Y: 1, Z: 2}, r3.Vector{X: 2, Y: 1, Z: 1}
 v, w := Get3Ddist(a, b, c, d), r3.Dot(r3.Sub(b, a), r3.Cross(r3.Sub(c, a), r3.Sub(d, a)))
 if v != w && v != -w { t.Fatal(v, w) }""", imports=V3)
BW = """
type rng uint64

func (r *rng) next() float64 {
	*r = *r*6364136223846793005 + 1442695040888963407
	return float64(uint64(*r)>>11) / (1 << 53)
}

func tri(m []int) map[[3]int]int {
	s := map[[3]int]int{}
	for i := 0; i+2 < len(m); i += 3 {
		k := []int{m[i], m[i+1], m[i+2]}
		sort.Ints(k)
		s[[3]int{k[0], k[1], k[2]}]++
	}
	return s
}

func vol(a, b, c, d r3.Vector) float64 {
	return r3.Dot(r3.Sub(b, a), r3.Cross(r3.Sub(c, a), r3.Sub(d, a)))
}

// a triangle of a Delaunay tetrahedralisation has an empty sphere through it and another point
func delaunay(p []r3.Vector, f [3]int) bool {
	for k := range p {
		if k == f[0] || k == f[1] || k == f[2] {
			continue
		}
		o := vol(p[f[0]], p[f[1]], p[f[2]], p[k])
		empty := true
		for e := range p {
			if e == f[0] || e == f[1] || e == f[2] || e == k {
				continue
			}
			in := det(p[f[0]], p[f[1]], p[f[2]], p[k], p[e])
			if o < 0 {
				in = -in
			}
			if in > 0 {
				empty = false
				break
			}
		}
		if empty {
			return true
		}
	}
	return false
}

// positive for e inside the sphere of a, b, c, d with positive volume
func det(a, b, c, d, e r3.Vector) float64 {
	q := [4]r3.Vector{r3.Sub(a, e), r3.Sub(b, e), r3.Sub(c, e), r3.Sub(d, e)}
	l := func(i int) float64 { return r3.Dot(q[i], q[i]) }
	m := func(i, j, k int) float64 { return r3.Dot(q[i], r3.Cross(q[j], q[k])) }
	s := l(0)*m(1, 2, 3) - l(1)*m(0, 2, 3) + l(2)*m(0, 1, 3) - l(3)*m(0, 1, 2)
	if v := vol(a, b, c, d); v < 0 {
		return s
	}
	return s
}
"""
VB = ("geGoMetry/r3", "sort")
def bw(id, prop, file, edits, needs, breaks, test):
    plant(id, prop, file, edits, needs, breaks, (BW, "_ = sort.Ints\n" + test), imports=VB)
def cloud(n, sets, scale, body):
    return f"""r := rng(7)
 for k := 0; k < {sets}; k++ {{
  var p []r3.Vector
  for i := 0; i < {n}; i++ {{ p = append(p, r3.Vector{{X: r.next() * {scale}, Y: r.next() * {scale}, Z: r.next() * {scale}}}) }}
  {body}
 }}"""
DEL = """for f := range tri(bowyerWatson(append([]r3.Vector(nil), p...)...)) { if !delaunay(p, f) { t.Fatal(k, f) } }"""
SAME = """q := make([]r3.Vector, len(p))
  for i := range p { q[len(p)-1-i] = p[i] }
  m := bowyerWatson(append([]r3.Vector(nil), q...)...)
  for i := range m { m[i] = len(p) - 1 - m[i] }
  a, b := tri(bowyerWatson(append([]r3.Vector(nil), p...)...)), tri(m)
  if len(a) != len(b) { t.Fatal(k, a, b) }
  for f := range a { if b[f] != a[f] { t.Fatal(k, f) } }"""
bw("tetra-hash-joined", "C32", "meshing/mesh.go",
 [('	return string(strconv.Itoa(t.ia) + "." + strconv.Itoa(t.ib) + "." + strconv.Itoa(t.ic) + "." + strconv.Itoa(t.id))', '	return string(strconv.Itoa(t.ia) + strconv.Itoa(t.ib) + strconv.Itoa(t.ic) + "." + strconv.Itoa(t.id))')],
 "more than a hundred points, so that corner numbers of different lengths run together", "Different tetrahedra share a key and replace one another.",
 cloud(140, 3, 1, SAME))
bw("mesh-first-point-lost", "C31", "meshing/mesh.go",
 [("	found = (f.pc >= 0) && (f.pc <= 3)", "	found = (f.pc >= 0) && (f.pc <= 4)")],
 "a face of the first input point in which it happens to be the third corner", "Such faces are dropped as if the first input point belonged to the enclosing tetrahedron.",
 cloud(30, 5, 1, """inner := tri(bowyerWatson(append([]r3.Vector(nil), p...)...))
  for a := range p { for b := 0; b < a; b++ { for c := 0; c < b; c++ { for d := 0; d < c; d++ {
   if b != 0 && c != 0 && d != 0 { continue }
   o := vol(p[d], p[c], p[b], p[a])
   ok := o > 1e-3 || o < -1e-3
   for e := range p {
    if e == a || e == b || e == c || e == d { continue }
    s := det(p[d], p[c], p[b], p[a], p[e])
    if o < 0 { s = -s }
    if s > 0 { ok = false; break }
   }
   if ok { for _, f := range [][3]int{{d, c, b}, {d, c, a}, {d, b, a}, {c, b, a}} { if inner[f] == 0 { t.Fatal(k, f) } } }
  } } } }"""))
bw("mesh-cavity-largest", "C31", "meshing/mesh.go",
 [("					faceSet[face.hash()] = faceCheck{true, -1, -1}", "					faceSet[face.hash()] = faceCheck{badTetraIndex-faceSet[face.hash()].tetraID < 12, badTetraIndex, faceIndex}")],
 "a point whose cavity consists of more than a dozen tetrahedra", "Inner faces between tetrahedra far apart in the list of removed ones are kept.",
 cloud(60, 6, 1, SAME))
plant("nearest-far", "C33", "meshing/helper.go",
 [("	minDistance := math.MaxFloat64", "	minDistance := float64(math.MaxInt16)")],
 "all points more than 32767 away from the query", "No point is found when all are far away, and the origin is returned.",
 """if p := getNearestPoint([]r3.Vector{{X: 50000, Y: 1}, {X: 60000}}, r3.Vector{}); p.X != 50000 { t.Fatal(p) }""", imports=V3)
plant("centroid-float", "C33", "triangulate3/util.go",
 [("	y := (p0.Y + p1.Y + p2.Y + p3.Y) / 4.0", "	y := float64(float32(p0.Y+p1.Y+p2.Y+p3.Y) / 4.0)")],
 "a second coordinate with more than seven digits", "One coordinate of the centroid is rounded to single precision.",
 """c := findCentroid(r3.Vector{Y: 0.1}, r3.Vector{Y: 0.1}, r3.Vector{Y: 0.1}, r3.Vector{Y: 0.1})
 if d := c.Y - 0.1; d > 1e-12 || d < -1e-12 { t.Fatal(c) }""", imports=V3)
plant("flip-reuses-indices", "C34", "meshing/flip.go",
 [("	t.indices = []uint32{}", "	if len(t.indices) > 12 {\n		t.indices = t.indices[:12]\n	} else {\n		t.indices = []uint32{}\n	}")],
 "a mesh that already has more than four triangles", "Old triangles stay in the index list.",
 """m := Meshing{vertices: []r3.Vector{{}, {X: 1}, {Y: 1}, {Z: 1}}, indices: []uint32{0, 1, 2, 1, 2, 3, 2, 3, 0, 3, 0, 1, 0, 2, 1}}
 m.flip14(r3.Vector{X: .1, Y: .1, Z: .1})
 n := Meshing{vertices: []r3.Vector{{}, {X: 1}, {Y: 1}, {Z: 1}}}
 n.flip14(r3.Vector{X: .1, Y: .1, Z: .1})
 if len(m.indices) != len(n.indices) { t.Fatal(m.indices) }""", imports=V3)
plant("flip-corner-snap", "C34", "meshing/flip.go",
 [("	t.vertices = append(t.vertices, p)", "	last := t.vertices[len(t.vertices)-1]\n	if r3.Distance(p, last) < 1e-9 {\n		p = last\n	}\n	t.vertices = append(t.vertices[:len(t.vertices):len(t.vertices)], p)")],
 "a point closer than 1e-9 to the last corner", "The inserted point is moved to the corner.",
 """m := Meshing{vertices: []r3.Vector{{}, {X: 1}, {Y: 1}, {Z: 1e-9}}}
 p := r3.Vector{Z: 5e-10}
 m.flip14(p)
 if m.vertices[4] != p { t.Fatal(m.vertices) }""", imports=V3)
plant("flip-wrong-face", "C34", "meshing/flip.go",
 [("	duplicateInReverse(&tetra4Indices)", "	duplicateInReverse(&tetra3Indices)")],
 "any point; only the windings of the last tetra are affected", "The last tetra's triangles miss their reverse winding, the third's come twice as often.",
 """m := Meshing{vertices: []r3.Vector{{}, {X: 1}, {Y: 1}, {Z: 1}}}
 m.flip14(r3.Vector{X: .1, Y: .1, Z: .1})
 if len(m.indices) != 96 { t.Fatal(len(m.indices)) }
 s := map[[3]uint32]int{}
 for i := 0; i < len(m.indices); i += 3 { s[[3]uint32{m.indices[i], m.indices[i+1], m.indices[i+2]}]++ }
 for f, n := range s { if s[[3]uint32{f[2], f[1], f[0]}] != n { t.Fatal(f) } }""", imports=V3)
bw("englobe-in-place", "C32", "meshing/mesh.go",
 [("	(*points) = append([]r3.Vector{p1, p2, p3, p4}, (*points)...)", "	n := len(*points)\n	(*points) = append((*points), p1, p2, p3, p4)\n	copy((*points)[4:], (*points)[:n])\n	copy((*points), []r3.Vector{p1, p2, p3, p4})")],
 "a point slice with room for four more", "The caller's points are shifted and overwritten by the enclosing tetrahedron's corners.",
 """p := make([]r3.Vector, 0, 20)
 p = append(p, r3.Vector{X: 1}, r3.Vector{Y: 2}, r3.Vector{Z: 3}, r3.Vector{X: 4, Y: 1, Z: 1}, r3.Vector{})
 bowyerWatson(p...)
 if (p[0] != r3.Vector{X: 1}) { t.Fatal(p) }""")
