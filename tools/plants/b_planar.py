# Helpers for demos in triangulate2: deterministic lattice-like point sets and exact integer predicates.
PH = """
type rng uint64

func (r *rng) next(n int) int {
	*r = *r*6364136223846793005 + 1442695040888963407
	return int(uint64(*r) >> 33) % n
}

func orient(a, b, c r3.Vector) int64 {
	ax, ay, bx, by, cx, cy := int64(a.X), int64(a.Y), int64(b.X), int64(b.Y), int64(c.X), int64(c.Y)
	return (bx-ax)*(cy-ay) - (by-ay)*(cx-ax)
}

// sets of small integer points
func sets(n, count, size int) [][]r3.Vector {
	r := rng(42)
	var out [][]r3.Vector
	for k := 0; k < n; k++ {
		var s []r3.Vector
		for i := 0; i < count; i++ {
			s = append(s, r3.Vector{X: float64(r.next(size)), Y: float64(r.next(size)), Z: float64(r.next(3))})
		}
		out = append(out, s)
	}
	return out
}

func inside(a, b, c, p r3.Vector) bool {
	row := func(q r3.Vector) (int64, int64, int64) {
		x, y := int64(q.X-p.X), int64(q.Y-p.Y)
		return x, y, x*x + y*y
	}
	ax, ay, al := row(a)
	bx, by, bl := row(b)
	cx, cy, cl := row(c)
	det := al*(bx*cy-by*cx) - bl*(ax*cy-ay*cx) + cl*(ax*by-ay*bx)
	if orient(a, b, c) < 0 {
		det = -det
	}
	return det > 0
}

// bad tells what is wrong with the triangulation of integer points.
func bad(pts []r3.Vector, tr *Triangulation) string {
	sum, hull := int64(0), int64(0)
	for i := 0; i < len(tr.Triangles); i += 3 {
		a, b, c := pts[tr.Triangles[i]], pts[tr.Triangles[i+1]], pts[tr.Triangles[i+2]]
		o := orient(a, b, c)
		if o < 0 {
			o = -o
		}
		if o == 0 {
			return "flat triangle"
		}
		sum += o
		for _, p := range pts {
			if inside(a, b, c, p) {
				return "not Delaunay"
			}
		}
	}
	h := ConvexHull(pts)
	for i := range h {
		a, b := h[i], h[(i+1)%len(h)]
		hull += int64(a.X)*int64(b.Y) - int64(a.Y)*int64(b.X)
	}
	if sum != hull {
		return "does not cover the hull"
	}
	used := map[[2]float64]bool{}
	for _, i := range tr.Triangles {
		used[[2]float64{pts[i].X, pts[i].Y}] = true
	}
	for _, p := range pts {
		if !used[[2]float64{p.X, p.Y}] {
			return "a point is missing"
		}
	}
	for i, j := range tr.Halfedges {
		if j >= 0 && tr.Halfedges[j] != i {
			return "half-edges"
		}
		if j >= 0 && (tr.Triangles[i] != tr.Triangles[j-j%3+(j+1)%3]) {
			return "half-edge ends"
		}
	}
	return ""
}
"""
SWEEP = """for n, s := range append(sets(400, 12, 9), sets(60, 60, 30)...) {
  tr, err := Triangulate(s)
  if err != nil { continue }
  if b := bad(s, tr); b != "" { t.Fatal(n, b) }
 }"""
F2 = "triangulate2/triangulator.go"
def planar(id, prop, edits, needs, breaks, test=SWEEP, file=F2, helpers=PH):
    plant(id, prop, file, edits, needs, breaks, (helpers, test), imports=("geGoMetry/r3",))

planar("hull-link-not-fixed", "C08", [("				if e.t == bl {\n					e.t = a\n					break\n				}", "				if e.t == bl && e != t.hull {\n					e.t = a\n					break\n				}")],
 "a flip that moves a boundary edge belonging to the node the hull list currently starts at", "The hull keeps pointing at the wrong half-edge after a flip, and later triangles are linked to an inner edge.",
 """for n, s := range append(sets(4000, 14, 40), sets(500, 60, 200)...) {
  tr, err := Triangulate(s)
  if err != nil { continue }
  if b := bad(s, tr); b != "" { t.Fatal(n, b) }
 }""")
planar("legalize-one-side", "C09", [("		t.legalize(a)\n		return t.legalize(br)", "		if t.halfedges[a] > a {\n			t.legalize(a)\n		}\n		return t.legalize(br)")],
 "a chain of flips that continues over the first edge into an older triangle", "After a flip one of the two new outer edges is not always checked again.")
planar("seed-small-refused", "C10", [("	if bl == 0 || cl == 0 || d == 0 || r == 0 {", "	if bl == 0 || cl == 0 || math.Abs(d) < 1e-9 || r == 0 {")],
 "points all within about 1e-5 of each other", "Small point sets are refused as if they were on one line.",
 """if _, err := Triangulate([]r3.Vector{{X: 0}, {X: 1e-5}, {Y: 1e-5}}); err != nil { t.Fatal(err) }""", file="triangulate2/util.go")
planar("bounds-first-point", "C11", [("		tri.ids[i] = i\n	}", "		tri.ids[i] = n - 1 - i\n	}"), ("	p1 := a.Vectors[a.ids[i]]\n	p2 := a.Vectors[a.ids[j]]\n	if p1.X != p2.X {\n		return p1.X < p2.X\n	}\n	return p1.Y < p2.Y", "	p1 := a.Vectors[a.ids[i]]\n	p2 := a.Vectors[a.ids[j]]\n	return p1.X+p1.Z*1e-3 < p2.X+p2.Z*1e-3")],
 "points at equal distance from the seed circle's centre that differ in the third coordinate", "The order in which equally distant points are inserted depends on their third coordinate.",
 """for n, s := range sets(3000, 9, 4) {
  flat := make([]r3.Vector, len(s))
  for i, p := range s { flat[i] = r3.Vector{X: p.X, Y: p.Y} }
  a, e1 := Triangulate(s)
  b, e2 := Triangulate(flat)
  if (e1 == nil) != (e2 == nil) { t.Fatal(n, e1, e2) }
  if e1 != nil { continue }
  if len(a.Triangles) != len(b.Triangles) { t.Fatal(n) }
  for i := range a.Triangles { if a.Triangles[i] != b.Triangles[i] { t.Fatal(n, a.Triangles, b.Triangles) } }
 }""")
planar("hull-sorts-input", "C12", [("	// copy Vectors\n	VectorsCopy := make([]r3.Vector, len(Vectors))\n	copy(VectorsCopy, Vectors)\n	Vectors = VectorsCopy\n", "	// copy Vectors\n	if len(Vectors) > 3 {\n		VectorsCopy := make([]r3.Vector, len(Vectors))\n		copy(VectorsCopy, Vectors)\n		Vectors = VectorsCopy\n	}\n")],
 "a set of at most three points in another order than sorted", "Small sets are sorted in place: the caller's points are reordered.",
 """s := []r3.Vector{{X: 3, Y: 1}, {X: 1, Y: 2}, {X: 2, Y: 7}}
 ConvexHull(s)
 if s[0].X != 3 || s[1].X != 1 { t.Fatal(s) }""", file="triangulate2/hull.go")
planar("hull-boundary-dropped", "C12", [("		for len(U) > 1 && cross2D(U[len(U)-2], U[len(U)-1], p) > 0 {", "		for len(U) > 1 && cross2D(U[len(U)-2], U[len(U)-1], p) >= 0 {")],
 "points on the upper boundary between corners", "Points on upper hull edges are dropped while those on lower edges are kept.",
 """h := ConvexHull([]r3.Vector{{X: 0, Y: 0}, {X: 2, Y: 0}, {X: 0, Y: 2}, {X: 2, Y: 2}, {X: 1, Y: 2}})
 if len(h) != 5 { t.Fatal(h) }""", file="triangulate2/hull.go")
planar("hull-duplicates-by-x", "C12", [("		if a.X != b.X {\n			return a.X < b.X\n		}\n		return a.Y < b.Y\n	})", "		if math.Abs(a.X-b.X) > 1e-3 {\n			return a.X < b.X\n		}\n		return a.Y < b.Y\n	})"), ("import (\n	\"geGoMetry/r3\"", "import (\n	\"geGoMetry/r3\"\n	\"math\"")],
 "points whose first coordinates differ by less than 0.001", "Points with nearly equal first coordinates are sorted as if on one vertical line, so outer points can be lost.",
 """for n, q := range sets(300, 12, 900) {
  s := make([]r3.Vector, len(q))
  for i, p := range q { s[i] = r3.Vector{X: p.X / 200000, Y: p.Y} }
  h := ConvexHull(s)
  for i := range h {
   a, b := h[i], h[(i+1)%len(h)]
   for _, p := range s { if cross2D(a, b, p) < -1e-9 { t.Fatal(n, h, p) } }
  }
 }""", file="triangulate2/hull.go")
planar("validate-skips-boundary", "C13", [("		if i2 != -1 && t.Halfedges[i2] != i1 {", "		if i2 > i1 && t.Halfedges[i2] != i1 {")],
 "a half-edge redirected to an earlier one", "Pairings that point back to earlier half-edges are not checked.",
 """s := sets(1, 12, 9)[0]
 tr, err := Triangulate(s)
 if err != nil { t.Fatal(err) }
 if e := tr.Validate(); e != nil { t.Fatal(e) }
 for i, j := range tr.Halfedges {
  if i > 0 && j == -1 {
   tr.Halfedges[i] = i - 1
   if tr.Validate() == nil { t.Fatal("redirected half-edge accepted") }
   tr.Halfedges[i] = j
  }
 }""", file="triangulate2/triangulation.go")
planar("validate-signed-area", "C13", [("		result += area(p0, p1, p2)\n	}\n	return result / 2", "		result += math.Abs(area(p0, p1, p2))\n	}\n	return result / 2")],
 "a triangle turned over", "The area sum ignores which way triangles are turned.",
 """s := sets(1, 12, 9)[0]
 tr, err := Triangulate(s)
 if err != nil { t.Fatal(err) }
 tr.Triangles[0], tr.Triangles[1] = tr.Triangles[1], tr.Triangles[0]
 if tr.Validate() == nil { t.Fatal("turned triangle accepted") }""", file="triangulate2/triangulation.go")
planar("hash-key-last-bucket", "C08", [("			key++\n			if key >= len(tri.hash) {\n				key = 0\n			}", "			key++\n			if key >= len(tri.hash)-1 {\n				key = 0\n			}")],
 "a hull whose live hash entries are all in the last bucket", "The search for a visible edge never looks into the last bucket after wrapping around.",
 """defer func() { if e := recover(); e != nil { t.Fatal(e) } }()
 for n, s := range append(sets(6000, 5, 12), append(sets(3000, 9, 40), sets(500, 40, 100)...)...) {
  tr, err := Triangulate(s)
  if err != nil { continue }
  if b := bad(s, tr); b != "" { t.Fatal(n, b) }
 }""")
planar("seed-nearest-last", "C10", [("		if d > 0 && d < minDist {\n			i1 = i\n			minDist = d", "		if d < minDist {\n			i1 = i\n			minDist = d")],
 "a duplicate of the point nearest to the middle of the bounds", "The seed's duplicate is taken as its nearest neighbour and the set is refused.",
 """if _, err := Triangulate([]r3.Vector{{X: 0}, {X: 4}, {Y: 4}, {X: 2, Y: 2}, {X: 2, Y: 2}, {X: 4, Y: 4}}); err != nil { t.Fatal(err) }""")
