From ab53da171143c5d0942ae671bf958c871a118e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 01/25] fix: leave the zero vector unchanged when normalizing
 it in place

---
 r3/vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/r3/vector.go b/r3/vector.go
index a509944..90a17e7 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -31,6 +31,7 @@ func (v *Vector) Normalize() *Vector {
 	n2 := v.Norm2()
 	if n2 == 0 {
 		v.X, v.Y, v.Z = 0, 0, 0
+		return v
 	}
 	v.Scale(1 / math.Sqrt(n2))
 	return v
-- 
2.43.0


From f3fc201b6761826d9bfce7907c5fd539a759c5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 02/25] fix: use the plane's distance when measuring a vector's
 distance to it

---
 r3/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r3/vector.go b/r3/vector.go
index 90a17e7..22505a8 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -110,7 +110,7 @@ func Cross(v Vector, ov Vector) Vector {
 }
 
 // CalculateDistanceToPlane returns the distance from vector v to plane p
-func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Normal.Norm2() }
+func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Distance }
 
 func det2D(a, b Vector) float64 {
 	return a.X*b.Y - a.Y*b.X
-- 
2.43.0


From 9e8fa99232a0af06c7551fc2c9dda52ed1435a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 03/25] fix: do not let normalization hide that a line is
 parallel to a plane

---
 r3/line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r3/line.go b/r3/line.go
index 9d4f847..5b0560d 100644
--- a/r3/line.go
+++ b/r3/line.go
@@ -11,7 +11,7 @@ type Plane3D struct {
 }
 
 func (line Line) IntersectPlane(plane Plane3D) Vector {
-	if Dot(plane.Normal, Normalize(line.Direction)) == 0 {
+	if Dot(plane.Normal, line.Direction) == 0 {
 		panic("plane and line are parallel. Therefore, no intersection")
 	}
 
-- 
2.43.0


From 960d32c0d18074dd4da267dfb6c688b58378a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 04/25] fix: do not index past a single point when
 triangulating

---
 triangulate2/triangulator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index df49be8..19ffa02 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -60,8 +60,8 @@ func (tri *triangulator) triangulate() error {
 	// compute bounds
 	x0 := Vectors[0].X
 	y0 := Vectors[0].Y
-	x1 := Vectors[1].X
-	y1 := Vectors[1].Y
+	x1 := Vectors[0].X
+	y1 := Vectors[0].Y
 	for i, p := range Vectors {
 		if p.X < x0 {
 			x0 = p.X
-- 
2.43.0


From 65f8760e3304ad2fcaa70ffb7368cbbf79f959e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 05/25] fix: keep a lone point in its convex hull

---
 triangulate2/hull.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 11f07f5..5ee9ba8 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -35,6 +35,9 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 		distinctVectors = append(distinctVectors, p)
 	}
 	Vectors = distinctVectors
+	if len(Vectors) < 2 {
+		return Vectors
+	}
 
 	// find upper and lower portions
 	var U, L []r3.Vector
-- 
2.43.0


From aad0420b8540e038c69ac74f22f5b4e14157addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 06/25] fix: ignore the third coordinate when triangulating in
 the plane

---
 triangulate2/hull.go         | 2 +-
 triangulate2/triangulator.go | 8 ++++----
 triangulate2/util.go         | 9 ++++++++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 5ee9ba8..823c99b 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -29,7 +29,7 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 	// filter nearly-duplicate Vectors
 	distinctVectors := Vectors[:0]
 	for i, p := range Vectors {
-		if i > 0 && r3.SquaredDistance(p, Vectors[i-1]) < eps {
+		if i > 0 && squaredDistance(p, Vectors[i-1]) < eps {
 			continue
 		}
 		distinctVectors = append(distinctVectors, p)
diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 19ffa02..73d68bd 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -84,7 +84,7 @@ func (tri *triangulator) triangulate() error {
 	m := r3.Vector{(x0 + x1) / 2, (y0 + y1) / 2, 0}
 	minDist := infinity
 	for i, p := range Vectors {
-		d := r3.SquaredDistance(p, m)
+		d := squaredDistance(p, m)
 		if d < minDist {
 			i0 = i
 			minDist = d
@@ -97,7 +97,7 @@ func (tri *triangulator) triangulate() error {
 		if i == i0 {
 			continue
 		}
-		d := r3.SquaredDistance(p, Vectors[i0])
+		d := squaredDistance(p, Vectors[i0])
 		if d > 0 && d < minDist {
 			i1 = i
 			minDist = d
@@ -130,7 +130,7 @@ func (tri *triangulator) triangulate() error {
 	// sort the Vectors by distance from the seed triangle circumcenter
 	tri.squaredDistances = make([]float64, n)
 	for i, p := range Vectors {
-		tri.squaredDistances[i] = r3.SquaredDistance(p, tri.center)
+		tri.squaredDistances[i] = squaredDistance(p, tri.center)
 	}
 	sort.Sort(tri)
 
@@ -167,7 +167,7 @@ func (tri *triangulator) triangulate() error {
 		p := Vectors[i]
 
 		// skip nearly-duplicate Vectors
-		if r3.SquaredDistance(p, pp) < eps {
+		if squaredDistance(p, pp) < eps {
 			continue
 		}
 		pp = p
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 14d1d35..ccbe9f4 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -23,6 +23,13 @@ func area(a, b, c r3.Vector) float64 {
 	return (b.Y-a.Y)*(c.X-b.X) - (b.X-a.X)*(c.Y-b.Y)
 }
 
+// squaredDistance returns the squared distance between a and b in the plane.
+func squaredDistance(a, b r3.Vector) float64 {
+	dx := a.X - b.X
+	dy := a.Y - b.Y
+	return dx*dx + dy*dy
+}
+
 //	Thales ++
 func inCircle(a, b, c, p r3.Vector) bool {
 	dx := a.X - p.X
@@ -98,7 +105,7 @@ func polygonPerimeter(Vectors []r3.Vector) float64 {
 	var result float64
 	q := Vectors[len(Vectors)-1]
 	for _, p := range Vectors {
-		result += r3.Distance(p, q)
+		result += math.Sqrt(squaredDistance(p, q))
 		q = p
 	}
 	return result
-- 
2.43.0


From 71cf6718194ca0e7cb5d14e6eeb2c5f54dd6a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 07/25] fix: let validation tolerate the rounding of large
 coordinates

---
 triangulate2/triangulation.go | 13 +++++++++----
 triangulate2/util.go          |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/triangulate2/triangulation.go b/triangulate2/triangulation.go
index d558822..6cccbd0 100644
--- a/triangulate2/triangulation.go
+++ b/triangulate2/triangulation.go
@@ -50,17 +50,22 @@ func (t *Triangulation) Validate() error {
 	// verify convex hull area 	 sum of triangle areas
 	hull1 := t.ConvexHull
 	hull2 := ConvexHull(t.Vectors)
+
+	// rounding errors grow with the size of the hull
+	perimeter1 := polygonPerimeter(hull1)
+	perimeter2 := polygonPerimeter(hull2)
+	size := math.Max(1, perimeter2)
+	tolerance := 1e-9 * size
+
 	area1 := polygonArea(hull1)
 	area2 := polygonArea(hull2)
 	area3 := t.area()
-	if math.Abs(area1-area2) > 1e-9 || math.Abs(area1-area3) > 1e-9 {
+	if math.Abs(area1-area2) > tolerance*size || math.Abs(area1-area3) > tolerance*size {
 		return fmt.Errorf("hull areas disagree: %f, %f, %f", area1, area2, area3)
 	}
 
 	// verify convex hull perimeter
-	perimeter1 := polygonPerimeter(hull1)
-	perimeter2 := polygonPerimeter(hull2)
-	if math.Abs(perimeter1-perimeter2) > 1e-9 {
+	if math.Abs(perimeter1-perimeter2) > tolerance {
 		return fmt.Errorf("hull perimeters disagree: %f, %f", perimeter1, perimeter2)
 	}
 
diff --git a/triangulate2/util.go b/triangulate2/util.go
index ccbe9f4..d0fbef2 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -90,10 +90,11 @@ func circumcenter(a, b, c r3.Vector) r3.Vector {
 }
 
 func polygonArea(Vectors []r3.Vector) float64 {
+	// measure from the first vertex, so that a polygon far from the origin loses no precision
 	var result float64
 	for i, p := range Vectors {
 		q := Vectors[(i+1)%len(Vectors)]
-		result += (p.X - q.X) * (p.Y + q.Y)
+		result += cross2D(Vectors[0], p, q)
 	}
 	return result / 2
 }
-- 
2.43.0


From 55eb98e21fd75664b3f562d748784117aaf7bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 08/25] fix: make the englobing tetrahedron contain the points'
 bounding box

---
 triangulate3/englober.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 9fe66d5..e0410e1 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -17,23 +17,24 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 	//	get bottom plane
 	normal := r3.Vector{0, 1, 0}
 	lowerPlane := r3.Plane3D{Normal: normal, Vector: minExtremity}
+	// the lines from the top run through a triangle that covers the box's upper face
 	top := getTopVectorOfTetrahedron(minExtremity, maxExtremity)
 	//Line 1
-	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z}
 	Direct1 := r3.Sub(top, upperVector1)
 	line1 := r3.Line{Vector: upperVector1, Direction: Direct1}
 	// first bottom Intersection Vector
 	tetraPoint1 := line1.IntersectPlane(lowerPlane)
 
 	//Line 2
-	upperVector2 := r3.Vector{maxExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector2 := r3.Vector{2*maxExtremity.X - minExtremity.X, maxExtremity.Y, minExtremity.Z}
 	Direct2 := r3.Sub(top, upperVector2)
 	line2 := r3.Line{Vector: upperVector2, Direction: Direct2}
 	// second bottom Intersection Vector
 	tetraPoint2 := line2.IntersectPlane(lowerPlane)
 
 	//Line 3
-	upperVector3 := r3.Vector{maxExtremity.X, maxExtremity.Y, minExtremity.Z}
+	upperVector3 := r3.Vector{minExtremity.X, maxExtremity.Y, 2*maxExtremity.Z - minExtremity.Z}
 	Direct3 := r3.Sub(top, upperVector3)
 	line3 := r3.Line{Vector: upperVector3, Direction: Direct3}
 	// third bottom Intersection Vector
@@ -51,7 +52,7 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 }
 func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 	x := minExtremity.X
-	y := 2 * maxExtremity.Y
+	y := 2*maxExtremity.Y - minExtremity.Y
 	z := minExtremity.Z
 
 	return r3.Vector{x, y, z}
-- 
2.43.0


From 0d797c27e4ec734142c7d94dbd382b68e0a1b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 09/25] fix: look on both sides of the plane for the furthest
 vector

---
 triangulate3/gdel3d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 3dae706..4ea42cc 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -34,8 +34,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 	max := 0.0
 	var furthestVector r3.Vector
 	for _, Vector := range Vectors {
-		dist := Get3Ddist(a, b, c, Vector)
-		if max > dist {
+		dist := math.Abs(Get3Ddist(a, b, c, Vector))
+		if max < dist {
 			furthestVector = Vector
 			max = dist
 		}
-- 
2.43.0


From 0655455b69a256e1756f1efd4be4b2b3e60d8dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 10/25] fix: keep the initial tetrahedron away from the points
 and askew to the axes

---
 meshing/helper.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/meshing/helper.go b/meshing/helper.go
index 614e76b..d42e521 100644
--- a/meshing/helper.go
+++ b/meshing/helper.go
@@ -95,15 +95,25 @@ func (h helper) computerInitialTetraPoints() (r3.Vector, r3.Vector, r3.Vector, r
 	xmin, ymin, zmin := h.min.X, h.min.Y, h.min.Z
 	xmax, ymax, zmax := h.max.X, h.max.Y, h.max.Z
 
+	// widen the box: the points must lie off the tetrahedron's faces, and its corners
+	// outside the circumspheres of the points' own tetras
+	margin := 1000 * math.Max(xmax-xmin, math.Max(ymax-ymin, zmax-zmin))
+	if margin == 0 {
+		margin = 1
+	}
+	xmin, ymin, zmin = xmin-margin, ymin-margin, zmin-margin
+	xmax, ymax, zmax = xmax+margin, ymax+margin, zmax+margin
+
 	xtetra := xmin + 3*(xmax-xmin)
 	ytetra := ymin + 3*(ymax-ymin)
 	ztetra := zmin + 3*(zmax-zmin)
 
-	//Bounding Tetrahedron
+	//Bounding Tetrahedron, skewed so that its edges and faces are not parallel to those
+	//of axis-aligned point sets
 	p1 := r3.Vector{X: xmin, Y: ymin, Z: zmin}
-	p2 := r3.Vector{X: xtetra, Y: ymin, Z: zmin}
-	p3 := r3.Vector{X: xmin, Y: ytetra, Z: zmin}
-	p4 := r3.Vector{X: xmin, Y: ymin, Z: ztetra}
+	p2 := r3.Vector{X: xtetra, Y: ymin - 0.31*margin, Z: zmin - 0.17*margin}
+	p3 := r3.Vector{X: xmin - 0.23*margin, Y: ytetra, Z: zmin - 0.37*margin}
+	p4 := r3.Vector{X: xmin - 0.41*margin, Y: ymin - 0.13*margin, Z: ztetra}
 
 	return p1, p2, p3, p4
 }
-- 
2.43.0


From feda164fc45b9abcdf6d22c8731f6d480f53e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 11/25] fix: respect the orientation of a tetra when testing
 its circumsphere

---
 meshing/mesh.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/meshing/mesh.go b/meshing/mesh.go
index 7667f5f..324f186 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -169,7 +169,13 @@ func bowyerWatson(points ...r3.Vector) []int {
 		polyhedron := []face{}
 		faceSet := make(map[string]faceCheck, 0)
 		for _, tetra := range t {
-			if predicates.InSphereFast(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) >= 0 {
+			pa, pb, pc, pd := points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id]
+			inSphere := predicates.InSphereFast(pa, pb, pc, pd, point)
+			// the sign of the predicate depends on the orientation of the tetra
+			if r3.Dot(r3.Sub(pa, pd), r3.Cross(r3.Sub(pb, pd), r3.Sub(pc, pd))) > 0 {
+				inSphere = -inSphere
+			}
+			if inSphere >= 0 {
 				badTetras = append(badTetras, tetra)
 			}
 		}
-- 
2.43.0


From 25016af1959feb702a1a0127594c4ef0afcd3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 12/25] fix: keep circle and ellipse triangles within the rim's
 vertices

---
 shape/circle.go  | 2 +-
 shape/ellipse.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape/circle.go b/shape/circle.go
index 1bc55dd..4c9f9e4 100644
--- a/shape/circle.go
+++ b/shape/circle.go
@@ -44,7 +44,7 @@ func (c Circle) generateVertices(circle *Mesh) {
 
 func (c Circle) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
diff --git a/shape/ellipse.go b/shape/ellipse.go
index a55589d..0cf44dc 100644
--- a/shape/ellipse.go
+++ b/shape/ellipse.go
@@ -46,7 +46,7 @@ func (e Ellipse) generateVertices(circle *Mesh) {
 
 func (e Ellipse) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
-- 
2.43.0


From 77c580f0a1e03673d68378e9a24d42e24bb743e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 13/25] fix: center, close and map the texture of spheres

---
 shape/sphere.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 255cf9c..4f263b5 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -37,7 +37,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 
 	lengthInv = 1.0 / float64(sd.radius)
 
-	for i := 0; i < sd.stackCount; i++ {
+	for i := 0; i <= sd.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep // starting from pi/2 to -pi/2
 		xy = sd.radius * math.Cos(stackAngle)          // r * cos(u)
@@ -54,6 +54,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			y = xy * math.Sin(sectorAngle) // r * cos(u) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(sd.center)
 			sphere.Vertices = append(sphere.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
@@ -65,8 +66,8 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			sphere.Normals = append(sphere.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / sd.sectorCount)
-			t = float64(i / sd.stackCount)
+			s = float64(j) / float64(sd.sectorCount)
+			t = float64(i) / float64(sd.stackCount)
 
 			texCoord := [2]float64{s, t}
 			sphere.TexCoords = append(sphere.TexCoords, texCoord)
@@ -90,15 +91,13 @@ func (sd Sphere) generateIndices(sphere *Mesh) {
 	}
 
 	//	BOTTOM
-	// k1 = uint32((sd.stackCount-1) * (sd.sectorCount + 1))
-	// k2 = 0 //k1+uint32(sd.sectorCount )
+	k1 = uint32((sd.stackCount - 1) * (sd.sectorCount + 1))
+	k2 = k1 + uint32(sd.sectorCount+1)
 
-	// for j := 0; j < sd.sectorCount; j ,k1= j+1, k1+1{
-
-	//     // k1+1 => k2 => k2+1
-	//     indices = append(indices, k1, k2, k1+1);
-
-	// }
+	for j := 0; j < sd.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
+		// k1 => k2 => k1+1
+		sphere.Indices = append(sphere.Indices, k1, k2, k1+1)
+	}
 
 	//	MIDDLE
 	for i := 1; i < sd.stackCount-1; i++ {
-- 
2.43.0


From 523c9473c64ef3eac951c40a3c051892d7dad628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 14/25] fix: center, close, shade and map the texture of tori

---
 shape/torus.go | 49 +++++++++++++------------------------------------
 1 file changed, 13 insertions(+), 36 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index 1c26206..884c695 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -28,16 +28,14 @@ func (td Torus) Construct() Mesh {
 
 func (td Torus) generateVertices(torus *Mesh) {
 
-	var x, y, z, xy float64           //	vertex position
-	var nx, ny, nz, lengthInv float64 //	vertex normal
-	var s, t float64                  //	vertex texCoord
+	var x, y, z, xy float64 //	vertex position
+	var nx, ny, nz float64  //	vertex normal
+	var s, t float64        //	vertex texCoord
 
 	sectorStep := 2 * math.Pi / float64(td.sectorCount)
 	stackStep := 2 * math.Pi / float64(td.stackCount)
 
-	lengthInv = 1.0 / float64(td.radius)
-
-	for i := 0; i < td.stackCount; i++ {
+	for i := 0; i <= td.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep      // starting from pi/2 to -pi/2
 		xy = td.radius + td.tubeRadius*math.Cos(stackAngle) // R + r * cos(u)
@@ -54,19 +52,20 @@ func (td Torus) generateVertices(torus *Mesh) {
 			y = xy * math.Sin(sectorAngle) // (R + r * cos(u)) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(td.center)
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-			nx = x * lengthInv
-			ny = y * lengthInv
-			nz = z * lengthInv
+			nx = math.Cos(stackAngle) * math.Cos(sectorAngle)
+			ny = math.Cos(stackAngle) * math.Sin(sectorAngle)
+			nz = math.Sin(stackAngle)
 
 			normal := [3]float64{nx, ny, nz}
 			torus.Normals = append(torus.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / td.sectorCount)
-			t = float64(i / td.stackCount)
+			s = float64(j) / float64(td.sectorCount)
+			t = float64(i) / float64(td.stackCount)
 
 			texCoord := [2]float64{s, t}
 			torus.TexCoords = append(torus.TexCoords, texCoord)
@@ -78,37 +77,15 @@ func (td Torus) generateIndices(torus *Mesh) {
 
 	var k1, k2 uint32
 
-	//	TOP
-	k1 = 0
-	k2 = uint32(td.sectorCount + 1)
-
-	//fmt.Println("TOP")
-	for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
-		//fmt.Println("A",k1+1,"B", k2, "C", k2+1)
-		// k1+1 => k2 => k2+1
-		torus.Indices = append(torus.Indices, k1+1, k2, k2+1)
-	}
-
-	//	BOTTOM
-	// k1 = uint32((td.stackCount - 1) * (td.sectorCount + 1))
-	// k2 = 0 //k1+uint32(td.sectorCount )
-
-	// for j := 0; j < td.sectorCount; j, k1 = j+1, k1+1 {
-
-	// 	// k1+1 => k2 => k2+1
-	// 	torus.Indices = append(torus.Indices, k1, k2, k1+1)
-
-	// }
-
-	//	MIDDLE
-	for i := 1; i < td.stackCount-1; i++ {
+	// the last stack repeats the first one
+	for i := 0; i < td.stackCount; i++ {
 
 		k1 = uint32(i * (td.sectorCount + 1)) // beginning of current stack
 		k2 = k1 + uint32(td.sectorCount+1)    // beginning of next stack
 
 		for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
 
-			// 2 triangles per sector excluding first and last stacks
+			// 2 triangles per sector
 			// k1 => k2 => k1+1
 			torus.Indices = append(torus.Indices, k1, k2, k1+1)
 
-- 
2.43.0


From 0e0b81589bb274eac84b6aefe3c8dfe1853a7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 15/25] fix: return a knot span that is not empty at the end of
 the knots

---
 nurbs/basis.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 370d9ff..c022cf9 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -12,7 +12,12 @@ import "fmt"
 */
 func findSpan(n, p int, u float64, U []int) int {
 	if u == float64(U[n+1]) {
-		return n
+		/* the last span that is not empty */
+		span := n
+		for span > p && U[span] == U[n+1] {
+			span--
+		}
+		return span
 	}
 	/* do binary search */
 	low := p
-- 
2.43.0


From 774f8e036c6df7ee62565ae2d46dc4c31864bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 16/25] fix: compute derivatives of basis functions at any
 parameter, with the right differences

---
 nurbs/basis.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index c022cf9..4fa4e30 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -81,7 +81,7 @@ func basisFuns(i int, u float64, p int, U []int) []float64 {
 /* output:
 -- ders : the derivatives of the function
 */
-func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
+func dersBasisFuns(i int, u float64, p, n int, U []int) [][]float64 {
 	/* ndu stores the basis functions and knot differences */
 	ndu := make([][]float64, p+1)
 	ders := make([][]float64, p+1)
@@ -96,9 +96,10 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 	left := make([]float64, p+1)
 	right := make([]float64, p+1)
 	/* ------------------------------------ */
+	ndu[0][0] = 1.
 	for j := 1; j <= p; j++ {
-		left[j] = float64(u - U[i+1-j])
-		right[j] = float64(U[i+1] - u)
+		left[j] = u - float64(U[i+1-j])
+		right[j] = float64(U[i+j]) - u
 		saved := 0.
 		for r := 0; r < j; r++ {
 			/* lower triangle */
@@ -146,7 +147,7 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 			}
 			for j := j1; j <= j2; j++ {
 				a[s2][j] = (a[s1][j] - a[s1][j-1]) / ndu[pk+1][rk+j]
-				d += a[s2][j] * ndu[r][pk]
+				d += a[s2][j] * ndu[rk+j][pk]
 			}
 			if r <= pk {
 				a[s2][k] = -a[s1][k-1] / ndu[pk+1][r]
-- 
2.43.0


From 67614ead658a9b4ec3f48e34662a0e61ea8b27ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 17/25] fix: keep strings together and drop blanks when
 splitting STEP lists

---
 step/util.go | 66 ++++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/step/util.go b/step/util.go
index 3d97f34..3041497 100644
--- a/step/util.go
+++ b/step/util.go
@@ -11,27 +11,42 @@ import (
 
 // getArguments : gets arguments from arguments STEP file text
 func getArguments(argumentsText string) []string {
-	arguments := make([]string, 0)
+	/* sanitizing last input by removing `);` */
+	argumentsText = strings.TrimRight(argumentsText, "; \t\r\n")
+	argumentsText = strings.TrimSuffix(argumentsText, ")")
+	return splitList(argumentsText)
+}
+
+// splitList : splits at the commas that are neither part of a nested
+// list nor of a string, and removes the blanks around the elements.
+func splitList(text string) []string {
+	list := make([]string, 0)
+	if strings.TrimSpace(text) == "" {
+		return list
+	}
 	openBrackets := 0
-	argument := make([]rune, 0)
-	for _, r := range argumentsText {
-		if r == '(' {
+	quoted := false
+	start := 0
+	for i := 0; i < len(text); i++ {
+		c := text[i]
+		if c == '\'' {
+			quoted = !quoted
+		}
+		if quoted {
+			continue
+		}
+		if c == '(' {
 			openBrackets++
 		}
-		if r == ')' {
+		if c == ')' {
 			openBrackets--
 		}
-		if openBrackets == 0 && r == ',' {
-			arguments = append(arguments, string(argument))
-			argument = make([]rune, 0)
-			continue
+		if openBrackets == 0 && c == ',' {
+			list = append(list, strings.TrimSpace(text[start:i]))
+			start = i + 1
 		}
-		argument = append(argument, r)
 	}
-	/* sanitizing last input by remove `);` */
-	lastArgument := string(argument)[:len(argument)-2]
-	arguments = append(arguments, lastArgument)
-	return arguments
+	return append(list, strings.TrimSpace(text[start:]))
 }
 
 // getArray : gets an array from arguments refactor
@@ -43,26 +58,11 @@ func getArguments(argumentsText string) []string {
 /* TODO:handle ERRORS */
 func getArray(arrayText string, t reflect.Kind) []string {
 	/* removing `(` from start and `)` from end*/
-	arrayText = arrayText[1 : len(arrayText)-1]
-	openBrackets := 0
-	element := make([]rune, 0)
-	array := make([]string, 0)
-	for _, r := range arrayText {
-		if r == '(' {
-			openBrackets++
-		}
-		if r == ')' {
-			openBrackets--
-		}
-		if openBrackets == 0 && r == ',' {
-			array = append(array, string(element))
-			element = make([]rune, 0)
-			continue
-		}
-		element = append(element, r)
+	arrayText = strings.TrimSpace(arrayText)
+	if !strings.HasPrefix(arrayText, "(") || !strings.HasSuffix(arrayText, ")") {
+		return make([]string, 0)
 	}
-	array = append(array, string(element))
-	return array
+	return splitList(arrayText[1 : len(arrayText)-1])
 }
 
 /* TODO:handle ERRORS */
-- 
2.43.0


From 0e56bd280b3db05681b2acbf71a0465621fd851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 18/25] fix: read STEP statements up to their semicolon instead
 of by line

---
 step/lex.go | 87 +++++++++++++++++++++--------------------------------
 1 file changed, 35 insertions(+), 52 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index b6a86f3..0ec8132 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -1,9 +1,8 @@
 package step
 
 import (
-	"bufio"
 	"flag"
-	"io"
+	"io/ioutil"
 	"os"
 	"strings"
 )
@@ -57,60 +56,38 @@ func (l *Lexer) Lex() SymbolTable {
 
 	check(err)
 	defer file.Close()
-	reader := bufio.NewReader(file)
+	text, err := ioutil.ReadAll(file)
+	check(err)
 
-	/* symbolData is the data related to the parsed symbol
-	---got from the step file */
-	symbolText := ""
 	symbolTable := make(SymbolTable, 0)
-	/* DEBUG : there is a bug with the fact that you didn't the case of that there is only one line in the definition text */
-	for {
-		line, _, err := reader.ReadLine()
+	for _, symbolText := range splitStatements(string(text)) {
+		symbolTable.add(symbolText)
+	}
+	return symbolTable
+}
 
-		if err == io.EOF {
-			break
+// splitStatements : splits the text of a step file at the semicolons
+// that are not part of a string. Statements may span lines.
+func splitStatements(text string) []string {
+	statements := make([]string, 0)
+	statement := make([]byte, 0)
+	quoted := false
+	for i := 0; i < len(text); i++ {
+		c := text[i]
+		if c == '\'' {
+			quoted = !quoted
 		}
-
-		buffer := string(line)
-
-		/* DEBUG BREAKPOINT */
-		//fmt.Println("buffer:", buffer, "\n buffer Length:", len(buffer))
-
-		/* skippin empty lines*/
-		/*
-			make it more robust to support multilines /could be the cause of a bug/
-		*/
-		if len(buffer) == 0 {
-			continue // empty
+		if c == '\n' || c == '\r' {
+			continue
 		}
-		/* __--------------- */
-		/*	you can optimize this further more by making sure the symbol
-			is init to the first value when you start parsing and remvove
-			the first check*/
-		if strings.Contains(buffer, "=") { // contains =
-			/* --sync method
-			---fmt.Println("emit") */
-
-			//fmt.Println(buffer, "buffer")
-			/*  the symbol data gets filled by the whole step description
-			----before getting split into identifier and definition */
-			if len(symbolText) > 0 {
-				symbolTable.add(symbolText)
-			}
-			/* ---------------------------------------------------- */
-			/*
-				---async method
-				symbol := Symbol{ID: identifier, Def: definition}
-				l.emit(symbol)
-			*/
-			/*_----------------------------------------------------_*/
-			symbolText = buffer // is not empty and does not contain =
-		} else {
-			symbolText += buffer
+		if c == ';' && !quoted {
+			statements = append(statements, string(statement))
+			statement = statement[:0]
+			continue
 		}
+		statement = append(statement, c)
 	}
-	symbolTable.add(symbolText)
-	return symbolTable
+	return append(statements, string(statement))
 }
 
 // emit : emits the symbol to the symbols chanel
@@ -123,7 +100,11 @@ func (l *Lexer) emit(s Symbol) {
 */
 func (st *SymbolTable) add(symbolText string) {
 	split := strings.SplitN(symbolText, "=", 2)
-	identifier := split[0]
+	identifier := strings.TrimSpace(split[0])
+	/* the other statements make up the header and the sections */
+	if len(split) < 2 || !strings.HasPrefix(identifier, "#") {
+		return
+	}
 	definition := tokenize(split[1])
 	(*st)[identifier] = definition
 
@@ -133,8 +114,10 @@ func (st *SymbolTable) add(symbolText string) {
 func tokenize(definitionText string) Definition {
 	split := strings.SplitN(definitionText, "(", 2)
 
-	argumentsText := split[1]
-	definitionArguments := getArguments(argumentsText)
+	definitionArguments := make([]string, 0)
+	if len(split) == 2 {
+		definitionArguments = getArguments(split[1])
+	}
 	definitionType := stripWhiteSpaces(split[0])
 	return Definition{
 		Type:      definitionType,
-- 
2.43.0


From 91bcfb0b70be669dd0f4c6a43fcb97f3ea236d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 19/25] fix: skip the comments of STEP files

---
 step/lex.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/step/lex.go b/step/lex.go
index 0ec8132..9f2febf 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -74,6 +74,14 @@ func splitStatements(text string) []string {
 	quoted := false
 	for i := 0; i < len(text); i++ {
 		c := text[i]
+		if !quoted && strings.HasPrefix(text[i:], "/*") {
+			end := strings.Index(text[i+2:], "*/")
+			if end < 0 {
+				break
+			}
+			i += 2 + end + 1
+			continue
+		}
 		if c == '\'' {
 			quoted = !quoted
 		}
-- 
2.43.0


From 3d0de83d81170b7d7d51723904bb7fab26376878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 20/25] fix: survive missing arguments and references of any
 type when parsing

---
 step/template.go | 83 +++++++++++++++++++++++++++---------------------
 1 file changed, 47 insertions(+), 36 deletions(-)

diff --git a/step/template.go b/step/template.go
index 615acfd..f6a47e0 100644
--- a/step/template.go
+++ b/step/template.go
@@ -11,18 +11,33 @@ func (p *Parser) skipUtility(key string) {
 	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
 }
 
+/* argument : gets an argument of a definition, empty if the definition has no such argument */
+func (p *Parser) argument(key string, index int) string {
+	arguments := p.lexemes[key].Arguments
+	if index >= len(arguments) {
+		return ""
+	}
+	return arguments[index]
+}
+
+/* follow : adds the definition that an argument refers to to the next states. The type of that
+---definition decides its state: a reference can be missing or lead to any other type. */
+func (p *Parser) follow(key string, index int) {
+	reference := p.argument(key, index)
+	if definition, found := p.lexemes[reference]; found {
+		p.nextStates = append(p.nextStates, parseState{fn: p.bridge(definition), key: reference})
+	}
+}
+
 func (p *Parser) productDefinitionShape(key string) {
 
-	productDefinitionState := parseState{fn: p.productDefinition, key: p.lexemes[key].Arguments[2]}
-	p.nextStates = append(p.nextStates, productDefinitionState)
+	p.follow(key, 2)
 
 }
 func (p *Parser) productDefinition(key string) {
 
-	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.lexemes[key].Arguments[2]}
-	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.lexemes[key].Arguments[2]}
-
-	p.nextStates = append(p.nextStates, productDefinitionFormationState, productDefinitionContextState)
+	p.follow(key, 2)
+	p.follow(key, 3)
 
 }
 
@@ -36,10 +51,9 @@ func (p *Parser) productDefinitionContext(key string) {
 
 func (p *Parser) axis2Placement3D(key string) {
 
-	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.lexemes[key].Arguments[1]}
-	xDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
-	yDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
-	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)
+	p.follow(key, 1)
+	p.follow(key, 2)
+	p.follow(key, 3)
 
 }
 
@@ -47,8 +61,7 @@ func (p *Parser) cartesianPoint(key string) {
 	//fmt.Println("key:", key)
 	//fmt.Println("value", p.lexemes[key])
 
-	arguments := p.lexemes[key].Arguments
-	coordinates := getArray(arguments[1], reflect.Float64)
+	coordinates := getArray(p.argument(key, 1), reflect.Float64)
 	_ = coordinates
 	//fmt.Println("coordinates:", coordinates)
 
@@ -62,7 +75,7 @@ func (p *Parser) manifoldSolidBRep(key string) {
 
 	parseStates := make([]parseState, 0)
 
-	closedShellState := parseState{fn: p.closedShell, key: p.lexemes[key].Arguments[1]}
+	closedShellState := parseState{fn: p.closedShell, key: p.argument(key, 1)}
 	parseStates = append(parseStates, closedShellState)
 	// vectorLoopState := parseState{fn: parseVectorLoop, key: l[key].Arguments[1]}
 	// if l[key].Type == "MANIFOLD_SOLID_BREP" {
@@ -89,20 +102,18 @@ func (p *Parser) advancedFace(key string) {
 
 	fmt.Println("parsing advanced face")
 
-	advancedFace := p.lexemes[key]
-	neighbourID := advancedFace.Arguments[1]
-	fmt.Println(p.lexemes[neighbourID].Type)
+	neighbourID := p.argument(key, 2)
+	faceType := strings.TrimSpace(p.lexemes[neighbourID].Type)
+	fmt.Println(faceType)
 
-	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
-	case faceType == "SPHERICAL_SURFACE":
+	switch faceType {
+	case "SPHERICAL_SURFACE":
 		fmt.Println("it's a sphere")
-		sphericalSurfaceState := parseState{fn: p.sphericalSurface, key: neighbourID}
-		p.nextStates = append(p.nextStates, sphericalSurfaceState)
+		p.follow(key, 2)
 		fmt.Println("STATES", p.nextStates)
 
-	case faceType == "TOROIDAL_SURFACE":
-		ToroidalSurfaceState := parseState{fn: p.toroidalSurface, key: neighbourID}
-		p.nextStates = append(p.nextStates, ToroidalSurfaceState)
+	case "TOROIDAL_SURFACE":
+		p.follow(key, 2)
 
 	default:
 
@@ -115,7 +126,7 @@ func (p *Parser) sphericalSurface(key string) {
 	// and propagate to new p.nextStates of the parser.
 	//p.nextStates := make([]parseState, 0)
 	fmt.Println("Bazinga!!!!!!")
-	radius := p.lexemes[key].Arguments[2]
+	radius := p.argument(key, 2)
 	fmt.Println("radius:", radius)
 
 }
@@ -158,18 +169,18 @@ func (p *Parser) bSplineSurfaceWithKnots(key string) {
 	*/
 	fmt.Println("Hooray! we found an awesome bSplineSurface with KNOTS")
 	fmt.Println("len(arguemnts):", len(p.lexemes[key].Arguments))
-	name := p.lexemes[key].Arguments[0]
-	uDegree := p.lexemes[key].Arguments[1]
-	vDegree := p.lexemes[key].Arguments[2]
-	controlPointsList := getMatrix(p.lexemes[key].Arguments[3])
-	surfaceForm := p.lexemes[key].Arguments[4] /* this is buggy */
-	uClosed := getLogical(p.lexemes[key].Arguments[5])
-	vClosed := getLogical(p.lexemes[key].Arguments[6])
-	selfIntersect := getLogical(p.lexemes[key].Arguments[7])
-	uMultiplicities := getArray(p.lexemes[key].Arguments[8], reflect.Int)
-	vMultiplicities := getArray(p.lexemes[key].Arguments[9], reflect.Int)
-	uKnots := getArray(p.lexemes[key].Arguments[10], reflect.Float64)
-	vKnots := getArray(p.lexemes[key].Arguments[11], reflect.Float64)
+	name := p.argument(key, 0)
+	uDegree := p.argument(key, 1)
+	vDegree := p.argument(key, 2)
+	controlPointsList := getMatrix(p.argument(key, 3))
+	surfaceForm := p.argument(key, 4) /* this is buggy */
+	uClosed := getLogical(p.argument(key, 5))
+	vClosed := getLogical(p.argument(key, 6))
+	selfIntersect := getLogical(p.argument(key, 7))
+	uMultiplicities := getArray(p.argument(key, 8), reflect.Int)
+	vMultiplicities := getArray(p.argument(key, 9), reflect.Int)
+	uKnots := getArray(p.argument(key, 10), reflect.Float64)
+	vKnots := getArray(p.argument(key, 11), reflect.Float64)
 
 	surfaceJob := bSplineSurfaceWithKnots{
 		name:              name,
-- 
2.43.0


From 321ecbaed8cc23294b993e5fa1d92a38080c9685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 21/25] fix: recognize advanced faces and axis placements by
 their STEP names

---
 step/bridge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/step/bridge.go b/step/bridge.go
index 50f5e45..2e8521b 100644
--- a/step/bridge.go
+++ b/step/bridge.go
@@ -18,13 +18,13 @@ func (parser *Parser) bridge(definition Definition) parseFn {
 		return parser.skipUtility
 	case "VERTEX_LOOP":
 		return parser.vertexLoop
-	case "AXIS_2_PLACEMENT_3D":
+	case "AXIS2_PLACEMENT_3D":
 		return parser.axis2Placement3D
 	case "FACE":
 		return parser.face
 	case "B_SPLINE_SURFACE_WITH_KNOTS":
 		return parser.bSplineSurfaceWithKnots
-	case "ADVENCED_FACE":
+	case "ADVANCED_FACE":
 		return parser.advancedFace
 	case "CLOSED_SHELL":
 		return parser.closedShell
-- 
2.43.0


From 3b19c7601927255976a073fc007821f2dc8bf607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:39 +0000
Subject: [PATCH 22/25] fix: leave the program's command line alone when
 reading a file

---
 step/lex.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index 9f2febf..c24f88a 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -1,7 +1,6 @@
 package step
 
 import (
-	"flag"
 	"io/ioutil"
 	"os"
 	"strings"
@@ -51,7 +50,6 @@ func initLexer(filename string) Lexer {
 // Lex : parses the step file and fills the symbol
 // table for the parser.
 func (l *Lexer) Lex() SymbolTable {
-	flag.Parse()
 	file, err := os.Open(l.Filename)
 
 	check(err)
-- 
2.43.0


From d3248e4da3d5a7a8f7a97806a0be29b7ab784459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 23/25] fix: keep enclosing tetrahedra clear of points with
 large coordinates

---
 meshing/helper.go        |  4 ++++
 triangulate3/englober.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/meshing/helper.go b/meshing/helper.go
index d42e521..a38fdd7 100644
--- a/meshing/helper.go
+++ b/meshing/helper.go
@@ -101,6 +101,10 @@ func (h helper) computerInitialTetraPoints() (r3.Vector, r3.Vector, r3.Vector, r
 	if margin == 0 {
 		margin = 1
 	}
+	// and must not get lost in the rounding of the coordinates
+	lower, upper := r3.Abs(h.min), r3.Abs(h.max)
+	largest := math.Max(math.Max(lower.X, math.Max(lower.Y, lower.Z)), math.Max(upper.X, math.Max(upper.Y, upper.Z)))
+	margin = math.Max(margin, 1e-6*largest)
 	xmin, ymin, zmin = xmin-margin, ymin-margin, zmin-margin
 	xmax, ymax, zmax = xmax+margin, ymax+margin, zmax+margin
 
diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index e0410e1..0fab21a 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -7,10 +7,11 @@ import (
 )
 
 func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
-	offset := 1.0
-
 	minExtremity, maxExtremity := computeBoundingBoxForVectors(Vectors)
 
+	// large enough not to get lost in the rounding of the coordinates
+	offset := math.Max(1, 1e-6*largestCoordinate(minExtremity, maxExtremity))
+
 	minExtremity.Add(r3.Vector{-offset, -offset, -offset})
 	maxExtremity.Add(r3.Vector{offset, offset, offset})
 
@@ -58,6 +59,11 @@ func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 	return r3.Vector{x, y, z}
 }
 
+func largestCoordinate(minExtremity, maxExtremity r3.Vector) float64 {
+	lower, upper := r3.Abs(minExtremity), r3.Abs(maxExtremity)
+	return math.Max(math.Max(lower.X, math.Max(lower.Y, lower.Z)), math.Max(upper.X, math.Max(upper.Y, upper.Z)))
+}
+
 func computeBoundingBoxForVectors(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
 	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
 	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
-- 
2.43.0


From 00458de6255f2af1606f4eb5c2d744c3d1134283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 24/25] fix: derivatives of degree above twenty overflowed the
 integer factor

---
 nurbs/basis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 4fa4e30..32ae365 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -161,12 +161,12 @@ func dersBasisFuns(i int, u float64, p, n int, U []int) [][]float64 {
 		}
 	}
 	/* multiply through by the correct factors */
-	r := p
+	r := float64(p)
 	for k := 1; k <= n; k++ {
 		for j := 0; j <= p; j++ {
-			ders[k][j] *= float64(r)
+			ders[k][j] *= r
 		}
-		r *= (p - k)
+		r *= float64(p - k)
 	}
 	return ders
 }
-- 
2.43.0


From 73c26bd876d15ea4c6382e4ad28d8c10386bb7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 25/25] fix: report a failure to write the JSON file

---
 step/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/step/util.go b/step/util.go
index 3041497..5c960d6 100644
--- a/step/util.go
+++ b/step/util.go
@@ -108,7 +108,8 @@ func marshallToJSON(item interface{}) {
 	file, err := os.Create("testfiles/out/test.json")
 	check(err)
 	defer file.Close()
-	file.Write(bytes)
+	_, err = file.Write(bytes)
+	check(err)
 
 }
 
-- 
2.43.0

