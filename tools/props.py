#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json; the one place where the list of properties is kept."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None, hook=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], hook=hook, level=level))

def m(name, where): return {"name": name, "where": where}

T = "property-based testing (rapid generators, shrinking): "
N = " Random search with a fixed seed: evidence, not proof."

prop("C01", "Vector arithmetic computes what its name says",
 "For all finite vectors and factors whose products stay in range, sum, difference, scaling, absolute value, dot product, cross product, norms, magnitudes and distances equal their mathematical values up to floating-point rounding. The in-place and the copying forms of an operation agree, and copying forms leave their operands as they were. The cross product is perpendicular to both operands and changes sign when they are exchanged.",
 ["inputs"], "every pair of finite vectors and every factor within the range where no intermediate product overflows or underflows",
 "The suite has no vector test; a wrong component shows only for operands that are asymmetric in that component.",
 ["r3/vector.go"], [m("Add, Sub, Scale, Scaled, Dot, Cross, Norm, Distance", "r3/vector.go")],
 T+"differential against exact rational arithmetic, algebraic laws",
 "Vectors of zero, small, fractional and log-uniform components; compared within 16 rounding units of the sum of absolute terms."+N, ["return values", "receiver and operands after the call"])
prop("C02", "Normalising gives the unit vector of the same direction",
 "Normalising any non-zero vector whose squares stay in range, in place or as a copy, gives a vector of length 1 (up to rounding) that is a positive multiple of the original; the zero vector stays zero in both forms. The unit test of vectors accepts exactly the vectors whose squared length is within its small tolerance of 1.",
 ["inputs"], "every finite vector whose squared length neither overflows nor underflows, the zero vector included",
 "No test normalises anything directly; zero, tiny and nearly unit vectors are inputs nobody samples.",
 ["r3/vector.go"], [m("Vector.Normalize, Normalize, IsUnit", "r3/vector.go")],
 T+"exact rational oracle", "IsUnit is left open for squared lengths 1e-14..1e-12 away from 1."+N, ["return values", "receiver"])
prop("C03", "Interpolation moves along the segment",
 "Interpolating between two points at t in [0,1] gives a + t(b-a) up to rounding: exactly the first point at 0, the second at 1, and nothing outside the segment in between. The interpolation by divisor is the same with the weights exchanged, giving the receiver at 1 and the argument at 0. Neither changes its operands.",
 ["inputs"], "all pairs of finite points and all parameters in [0,1]",
 "Untested; end points and unequal weights are what a sampled midpoint would miss.",
 ["r3/vector.go"], [m("Interpolate, GetInterpolationVector", "r3/vector.go")],
 T+"exact rational oracle and the relation between both forms", "Compared within 16 rounding units."+N)
prop("C04", "Line–plane intersection lies on both, parallels are refused",
 "For a line and a plane that are not parallel, the intersection returned lies on the plane and on the line, whatever the lengths of the normal and the direction and whatever sign they have. A line exactly parallel to the plane, also one lying in it, is refused with a panic instead of giving a point.",
 ["inputs"], "all planes with a non-zero normal and all lines; angles below 1e-7 that are not exactly zero are left open",
 "The one existing test prints a single intersection; near-parallel lines and unnormalised vectors are never tried.",
 ["r3/line.go"], [m("Line.IntersectPlane", "r3/line.go")],
 T+"exact rational intersection", "Error bound 64 rounding units over the squared cosine."+N)
prop("C05", "Point–plane distance is the signed height above the plane",
 "For a plane built from a unit normal and a point on it, the distance of any vector to the plane is its signed height along the normal: zero on the plane, positive on the side the normal points to, wherever the plane lies.",
 ["inputs"], "all unit normals, plane points and probes", "Untested; planes through the origin hide the offset.",
 ["r3/vector.go", "r3/plane.go"], [m("CalculateDistanceToPlane", "r3/vector.go"), m("newPlane", "r3/plane.go")],
 T+"probes constructed at a known height", "Within 1e-14 of the magnitudes involved."+N, hook="newPlane through an overlay file")
prop("C06", "In-sphere and orientation tests have the right sign",
 "For any five points, the plain in-sphere test is positive, zero or negative exactly as the fifth point is inside, on or outside the sphere through the first four when these are ordered with negative orientation, and the other way round otherwise; the 3D orientation test is likewise the signed volume. Both are exact for small integers, and right in sign and value beyond the rounding error otherwise; exchanging two of the four sphere points changes the sign.",
 ["inputs"], "all quintuples of finite points without overflow or underflow",
 "Predicates are untested; a wrong term matters only for points in general position near the sphere.",
 ["predicates/insphere.go", "predicates/orient3d.go"], [m("InSphereFast", "predicates/insphere.go"), m("orient3dfast", "predicates/orient3d.go")],
 T+"exact rational determinants, side of the sphere decided exactly", "Sign required above a forward error bound of 100 rounding units of the permanent; exact equality for integers up to 128."+N, hook="orient3dfast through an overlay file")
prop("C07", "The filtered in-sphere test never gives a wrong sign",
 "Whenever the error-bounded in-sphere test gives a non-zero answer, its sign is that of the exact determinant and its value agrees with it; it may answer zero only where the exact value is so small that rounding could hide its sign.",
 ["inputs"], "all quintuples of finite points without overflow or underflow, in particular nearly cospherical ones",
 "Only inputs within rounding of a common sphere can show a filter that is too weak or too strong.",
 ["predicates/insphere.go"], [m("error bound of inSphere", "predicates/insphere.go")],
 T+"differential against exact rational arithmetic on nearly cospherical points", "Zero is accepted within 128 rounding units of the permanent."+N, hook="inSphere through an overlay file")
prop("C08", "A planar triangulation is a well-formed triangulated disc",
 "Every accepted planar triangulation lists triangles of three distinct valid point indices, all turned the same way, and half-edges that pair the two triangles sharing an edge (each the other's opposite, with exchanged ends) and mark boundary edges with -1. Triangles do not overlap, the boundary is one closed loop, and the counts satisfy Euler's formula for a disc.",
 ["inputs"], "all finite point sets, in any arrangement, with duplicates, coordinates below 1e28 and distinct points more than 1e-7 apart",
 "No test in the repository triangulates in the plane; grids, cocircular and collinear points reach different branches.",
 ["triangulate2/triangulator.go", "triangulate2/triangulation.go"], [m("advancing hull, legalize, link", "triangulate2/triangulator.go")],
 T+"structural validity with exact orientation tests", "Lattice sets are judged exactly; float sets within 1e-12 of the squared extent."+N)
prop("C09", "A planar triangulation is Delaunay",
 "No input point lies strictly inside the circumcircle of any triangle of an accepted planar triangulation.",
 ["inputs"], "all finite point sets as for the structure", "Needs every triangle against every point over all arrangements; untested here.",
 ["triangulate2/triangulator.go", "triangulate2/util.go"], [m("legalize, inCircle", "triangulate2/triangulator.go, triangulate2/util.go")],
 T+"exact empty-circle test", "Exact on lattice sets; on floats violations within 1e-10 of the determinant's magnitude are rounding."+N)
prop("C10", "Planar triangulations cover the hull, collinear input is refused",
 "A triangulation of points not all on one line is produced without error, covers the whole convex hull (area sums agree), uses every distinct position as a corner and reports the hull's corners. Points that are all on one line, or a single position, are refused with an error and without a crash; no points give an empty triangulation.",
 ["inputs"], "all finite point sets as for the structure, including empty, single, repeated and collinear ones",
 "The degenerate sets are exactly the ones no example covers.",
 ["triangulate2/triangulator.go", "triangulate2/triangulation.go"], [m("seed search and refusal", "triangulate2/triangulator.go"), m("Triangulate", "triangulate2/triangulation.go")],
 T+"exact collinearity and independently computed exact hull", "Float sets that are nearly but not exactly collinear are left open."+N)
prop("C11", "Planar triangulation depends on planar positions only",
 "Triangulating does not change its input and gives the same result when repeated; the third coordinate of the points has no influence at all. Reordering the points, shifting, reflecting, turning or scaling them changes neither acceptance nor the number of triangles, and keeps the same triangles wherever the Delaunay triangulation is unique.",
 ["inputs", "histories"], "all finite point sets with all permutations, heights and exact motions", "A metamorphic statement about pairs of runs; no test runs twice.",
 ["triangulate2/triangulator.go", "triangulate2/util.go", "triangulate2/hull.go"], [m("planar distance and area helpers, sort order", "triangulate2/util.go")],
 T+"metamorphic relations", "Motions are applied to lattice sets, where they are exact."+N)
prop("C12", "The convex hull is the counter-clockwise boundary",
 "The convex hull of a planar point set turns once, counter-clockwise, around all points, none of which lies outside; it consists of input points, keeps every position on the boundary and repeats none. For points on one line it holds every distinct position, for one point (also repeated) that point; the input stays unchanged.",
 ["inputs"], "all finite planar point sets, degenerate ones included", "Untested; duplicates, boundary points and vertical extremes are the hard inputs.",
 ["triangulate2/hull.go"], [m("ConvexHull", "triangulate2/hull.go")],
 T+"exact orientation tests and an independently computed hull", "Exact on lattice sets, 1e-12 of the squared extent on floats."+N)
prop("C13", "Validation accepts good triangulations and rejects damaged ones",
 "Validating a fresh triangulation reports no error, wherever and however large the points are. It reports an error when a half-edge pairing is broken, a triangle is missing, doubled or turned over, a hull corner is missing, or the hull makes a detour.",
 ["inputs", "fault_sequences"], "all triangulations of finite point sets, and all single damages that change pairing, area or perimeter noticeably", "Validate is never called by a test.",
 ["triangulate2/triangulation.go"], [m("Validate", "triangulate2/triangulation.go")],
 T+"fault injection into valid results", "Damage changes areas by more than 1e-6 of the squared extent."+N)
prop("C14", "Point-in-tetrahedron agrees with geometry",
 "The point-in-tetrahedron tests of both 3D packages accept exactly the points inside or on a tetrahedron with a volume, whatever order its corners are given in.",
 ["inputs"], "all tetrahedra that are not flat, all points not within rounding of a face plane (exact for integers)", "Only the enclosing-tetra tests of a package that does not compile its tests use it.",
 ["meshing/util.go", "triangulate3/util.go"], [m("sameSide, vectorInTetrahedron", "meshing/util.go"), m("SameSide, VectorInTetrahedron", "triangulate3/util.go")],
 T+"exact orientation signs", "Integer coordinates judged exactly; for floats determinants within 1e-13 of the cubed extent are open."+N, hook="vectorInTetrahedron through an overlay file")
prop("C15", "The initial enclosing tetrahedron contains every point",
 "For any non-empty point set the enclosing tetrahedra that both 3D packages start from have a volume and contain all the points, wherever these lie and however they are spread. The points themselves are kept, in order, behind the four corners that the meshing package puts in front of them.",
 ["inputs"], "all non-empty finite point sets below 1e6: shifted, negative, flat, elongated and repeated ones", "The existing test looks at one unit cube and prints.",
 ["meshing/helper.go", "meshing/mesh.go", "triangulate3/englober.go"], [m("findExtremas, computerInitialTetraPoints, englobe", "meshing/helper.go, meshing/mesh.go"), m("constructEnglobingTetra", "triangulate3/englober.go")],
 T+"exact orientation signs", "Coordinates below 1e6."+N, hook="englobe and constructEnglobingTetra through overlay files")
prop("C16", "The initial simplex takes the extreme points",
 "For points not in one plane, the initial tetrahedron consists of two input points extreme in the first coordinate, the input point furthest from their line, and the input point furthest from the plane of those three, on either side. The measures used for this equal the square of the triangle's doubled area and the tetrahedron's signed sixfold volume up to rounding.",
 ["inputs"], "all point sets not in one plane; all quadruples for the measures", "The existing test does not compile with its package and asserts nothing.",
 ["triangulate3/gdel3d.go", "triangulate3/util.go"], [m("createInitialTetra", "triangulate3/gdel3d.go"), m("Get2Ddist, Get3Ddist", "triangulate3/util.go")],
 T+"exact rational areas and volumes over all points", "For floats, maxima may be missed by a relative 1e-11."+N, hook="createInitialTetra through an overlay file")
prop("C17", "Circles and ellipses are complete closed fans",
 "The mesh of a circle or ellipse has one vertex at the centre and the others evenly spread over the rim, all on the curve. Its triangles cover every sector between neighbouring rim vertices exactly once in each winding, and every index is that of a vertex.",
 ["inputs"], "all centres, radii and semi-axes of any finite positive size, any number of at least three sectors", "The existing tests export one shape each without looking at it.",
 ["shape/circle.go", "shape/ellipse.go", "shape/shape.go"], [m("Circle.Construct", "shape/circle.go"), m("Ellipse.Construct", "shape/ellipse.go")],
 T+"validity of the generated mesh", "Only the sector count the constructor fixes can be reached from outside."+N)
prop("C18", "Spheres are closed, on the surface and correctly shaded",
 "All vertices of a sphere's mesh lie on the sphere around its centre, normals are unit vectors pointing away from the centre, and texture coordinates are those of longitude and latitude and do not jump within a triangle. The triangles form one closed surface turned one way, which winds once around inner points and not around outer ones, with the sphere's volume up to the facets' error.",
 ["inputs"], "all centres and positive radii, any number of at least three sectors and two stacks", "The existing test exports one sphere without looking at it.",
 ["shape/sphere.go", "shape/shape.go"], [m("Sphere.Construct", "shape/sphere.go")],
 T+"validity predicates, winding number", "Centres at most 1e7 radii from the origin."+N)
prop("C19", "Tori are closed, on the surface and correctly shaded",
 "All vertices of a torus's mesh lie on the torus around its centre at the parameters their texture coordinates denote, with the exact unit surface normal there, and no texture coordinate jumps within a triangle. The triangles form one closed surface turned one way, which winds once around the inside of the tube and not around the hole, with the torus's volume up to the facets' error.",
 ["inputs"], "all centres and all ring tori (0 < tube radius < radius), any number of at least three sectors and stacks", "The existing test exports one torus without looking at it.",
 ["shape/torus.go", "shape/shape.go"], [m("Torus.Construct", "shape/torus.go")],
 T+"validity predicates, winding number", "Ring tori with a tube of 0.02 to 0.95 of the radius."+N)
prop("C20", "glTF export carries the mesh exactly",
 "Reading the exported binary glTF file back gives one triangle primitive with the mesh's vertices in order (rounded to single precision), its triangle indices in order, and a white colour for every vertex, for meshes of any size. The scene shows exactly that mesh once.",
 ["inputs"], "all meshes of at least one vertex and triangle with finite coordinates in single precision range, of up to and beyond 65536 vertices", "The export tests only write files; nobody reads them back.",
 ["glTF/export.go", "glTF/model.go", "shape/mesh.go"], [m("transferModel, Export", "glTF/model.go, glTF/export.go")],
 T+"round trip through an independent GLB reader", "Empty meshes are left open."+N, ["the written file"])
prop("C21", "Exported files are valid GLB, and failures are reported",
 "Every exported file is a well-formed GLB 2.0 container whose buffer views, accessors, bounds and references are consistent, also when it replaces a longer file. Exporting changes nothing about the mesh and writes the same bytes every time; a destination that cannot be written is reported by a panic rather than ignored.",
 ["inputs", "fault_sequences", "histories"], "all meshes as for the round trip, any existing file at the destination, any unwritable destination", "Format details and faults are invisible to tests that only write.",
 ["glTF/export.go"], [m("Export", "glTF/export.go")],
 T+"strict independent validator, fault injection", "Faults: missing directory, directory at the name, path through a file, full device."+N, ["the written file", "panic"])
prop("C22", "STEP reading keeps every instance and parameter",
 "Reading a STEP file gives exactly one entry per instance, under its number, with its type and its parameters in order and unchanged apart from blanks around them, whatever the parameters hold: nested lists, references, and strings with quotes, commas, brackets, semicolons or equal signs. Header and section lines give no entries.",
 ["inputs"], "all files of instances with unique numbers, of any length, with parameters of all kinds", "The tests print the content of one or two files.",
 ["step/lex.go", "step/util.go"], [m("Lex, splitStatements, tokenize", "step/lex.go"), m("getArguments, splitList", "step/util.go")],
 T+"model-based: files rendered from a generated model", "Content of complex instances and repeated numbers are left open."+N, hook="initLexer through an overlay file")
prop("C23", "Layout and order of a STEP file do not matter",
 "Two STEP files that differ only in blanks, line breaks (either kind) and comments between tokens, in how statements are spread over lines, or in the order of instances are read as the same definitions. This includes the repository's own sample files, all instances of which are read.",
 ["inputs"], "all files and all layouts of them", "A relation between two readings; tests read one layout.",
 ["step/lex.go", "step/util.go"], [m("splitStatements", "step/lex.go")],
 T+"metamorphic relation and independent reader", "Layout changes between tokens only."+N, hook="initLexer through an overlay file")
prop("C24", "Splitting lists gives their elements",
 "Splitting the text of a STEP list gives its top-level elements in order, without surrounding blanks, however deeply they are nested and whatever strings hold; an empty list gives none, and joining the elements gives the list again. Splitting a list of lists gives the rows in order with their elements, whatever their lengths.",
 ["inputs"], "all well-formed list texts", "The tests print the elements of one list.",
 ["step/util.go"], [m("getArray, getMatrix, splitList", "step/util.go")],
 T+"model-based: lists rendered from generated elements", "Text that is a list."+N, hook="getArray and getMatrix through an overlay file")
prop("C25", "Reading and parsing survive any content",
 "Reading a file of arbitrary or damaged content and parsing any table of definitions return without a crash and without running forever, even when arguments are missing or malformed and references are missing, cyclic or lead to any type. Parsing leaves the table unchanged, and a file that cannot be opened is reported by a panic.",
 ["inputs", "fault_sequences"], "all byte sequences and all symbol tables", "Quantifies over malformed input; the tests use well-formed files.",
 ["step/lex.go", "step/parse.go", "step/template.go", "step/util.go"], [m("argument, follow", "step/template.go"), m("visited set", "step/parse.go")],
 T+"fuzzing with structured mutations", "Files of up to some ten thousand bytes."+N, hook="initLexer through an overlay file")
prop("C26", "Parsing handles every instance once, by its own type",
 "Parsing a table reports every definition exactly once, in whatever order, also when definitions refer to each other or to themselves: B-spline surfaces with all their attributes, spherical surfaces with their radius, advanced faces with the type of their surface, and unsupported types as skipped. Nothing else about a definition influences how often it is reported.",
 ["inputs", "schedules"], "all tables of instances and references, over all iteration orders of the table", "Map order and reference graphs vary; tests parse two files and look at nothing.",
 ["step/parse.go", "step/bridge.go", "step/template.go", "step/job.go"], [m("runInferenceModel", "step/parse.go"), m("bridge", "step/bridge.go"), m("print", "step/job.go")],
 T+"model-based: report predicted by an independent reader", "Observed on the standard output, the only output there is."+N, ["standard output"], hook="initLexer through an overlay file")
prop("C27", "The knot span contains the parameter",
 "For any non-decreasing knot vector and any parameter in its domain, the span found is non-empty and contains the parameter, the last non-empty span at the end of the domain; the search ends.",
 ["inputs"], "all integer knot vectors with a non-empty domain, any degree, any parameter within the domain", "The one test evaluates one curve at one parameter.",
 ["nurbs/basis.go"], [m("findSpan", "nurbs/basis.go")],
 T+"definition as oracle", "Degrees 0..6, up to 10 spans; parameters outside the domain are left open."+N, hook="findSpan through an overlay file")
prop("C28", "Basis functions are the Cox–de Boor functions",
 "The basis functions computed for a parameter in its span are those of the Cox–de Boor recursion, as many as the degree plus one: not negative, summing to one, and right up to rounding for any knots and degree.",
 ["inputs"], "all integer knot vectors, degrees and parameters in the domain", "One sampled parameter cannot tell one recursion from another.",
 ["nurbs/basis.go"], [m("basisFuns", "nurbs/basis.go")],
 T+"differential against the definition in rational arithmetic", "Degrees 0..6."+N, hook="basisFuns through an overlay file")
prop("C29", "Curve points are the weighted sum of the control points",
 "A curve point is the sum of the control points weighted with the basis functions at the parameter, over the whole domain including both ends. Only the degree+1 control points of the span have influence, and the control points are left unchanged.",
 ["inputs"], "all integer knot vectors, control polygons and parameters in the domain", "The one test prints a single point.",
 ["nurbs/curve.go", "nurbs/basis.go"], [m("curvePoint", "nurbs/curve.go")],
 T+"differential against rational arithmetic", "Degrees 0..6."+N, hook="curvePoint through an overlay file")
prop("C30", "Basis function derivatives are right",
 "The derivatives computed for the basis functions, of every order from zero up to the degree, are the derivatives of the Cox–de Boor functions at the parameter, up to rounding; order zero gives the basis functions themselves.",
 ["inputs"], "all integer knot vectors, degrees, orders up to the degree and parameters in the domain", "Never called by a test.",
 ["nurbs/basis.go"], [m("dersBasisFuns", "nurbs/basis.go")],
 T+"differential against symbolically differentiated exact pieces", "Degrees 0..6."+N, hook="dersBasisFuns through an overlay file")
prop("C31", "3D triangulation is Delaunay",
 "For points in general position every triangle the 3D triangulation produces is a face of a Delaunay tetrahedron of the points. Conversely, every Delaunay tetrahedron whose sphere stays clear of the enclosing tetrahedron contributes all four of its faces, so that no interior part is missing.",
 ["inputs"], "all point sets in general position (no four coplanar, no five cospherical within rounding)", "The existing test triangulates one set and asserts nothing.",
 ["meshing/mesh.go", "meshing/helper.go", "predicates/insphere.go"], [m("bowyerWatson", "meshing/mesh.go")],
 T+"brute-force Delaunay reference", "Up to 130 points; degenerate sets are left open."+N, hook="bowyerWatson and englobe through overlay files")
prop("C32", "3D triangulation is well formed and independent of order",
 "The 3D triangulation returns indices of input points in groups of three different ones and leaves its input unchanged. For points in general position the set of triangles does not depend on the order the points are given in, on the iteration order inside, or on scaling by two.",
 ["inputs", "schedules"], "all point sets in general position, all permutations, all map iteration orders", "Map iteration varies per run; no test compares two runs.",
 ["meshing/mesh.go"], [m("bowyerWatson", "meshing/mesh.go")],
 T+"metamorphic relations", "Up to 160 points."+N, hook="bowyerWatson through an overlay file")
prop("C33", "Nearest point and centroid are exact",
 "The nearest point to a query is an input point with no other input point closer, up to rounding. The centroid of a tetrahedron, in both 3D packages, is the mean of its four corners.",
 ["inputs"], "all non-empty point sets and queries, all quadruples", "Untested.",
 ["meshing/helper.go", "meshing/util.go", "triangulate3/util.go"], [m("getNearestPoint", "meshing/helper.go"), m("findCentroid", "meshing/util.go, triangulate3/util.go")],
 T+"exact distances and means", "Distances equal to 1e-14 may be chosen alike."+N, hook="unexported functions through overlay files")
prop("C34", "Splitting a tetrahedron at a point gives its four parts",
 "Inserting a point into the initial tetrahedron keeps the four corners, appends the point, and replaces the index list by that of the four tetrahedra joining the point to each face: each outer face once and each inner face twice, all in both windings.",
 ["inputs", "histories"], "all tetrahedra, points and previous index lists", "Untested.",
 ["meshing/flip.go", "meshing/util.go"], [m("flip14", "meshing/flip.go"), m("duplicateInReverse", "meshing/util.go")],
 T+"expected face multiset", "Judged as a set of faces, not by order."+N, hook="flip14 through an overlay file")

prop("C35", "Calls are independent of each other",
 "Every operation of the library gives the same result whatever was called before it and whatever callers did with earlier results, leaves its inputs and earlier results as they are, and may run at the same time as others, also on the same inputs, without a data race or a different result. No operation depends on or changes the program around it: its command line, environment and working directory.",
 ["inputs", "histories", "schedules"], "all sequences and all simultaneous combinations of calls, in any program", "Tests call one function once, in a test binary with no flags of its own; shared state shows only between calls.",
 ["r3/vector.go", "predicates/insphere.go", "triangulate2/triangulator.go", "triangulate2/hull.go", "meshing/mesh.go", "triangulate3/gdel3d.go", "triangulate3/englober.go", "shape/sphere.go", "shape/torus.go", "glTF/export.go", "step/lex.go", "step/parse.go", "step/util.go", "nurbs/basis.go", "nurbs/curve.go"],
 [m("Triangulate, ConvexHull", "triangulate2/triangulation.go, triangulate2/hull.go"), m("bowyerWatson", "meshing/mesh.go"), m("Construct", "shape/sphere.go, shape/torus.go"), m("Export", "glTF/export.go"), m("Lex, Parse", "step/lex.go, step/parse.go")],
 T+"generated call sequences: order reversal, overwritten results, simultaneous calls under the race detector", "Schedules are those the runtime chooses; the race detector judges the ordering of accesses, not only outcomes."+N, ["return values", "inputs and earlier results", "reports of the race detector"], hook="unexported functions through overlay files")
prop("C36", "The normal of three points is that of their plane",
 "The normal of the plane through three points is the cross product of the edges from the first to the second and to the third point, up to rounding: perpendicular to the plane, as long as twice the triangle's area, turned the other way when two points change places, zero for points on a line. A plane built from it holds all three points, and a line along it meets the plane at its foot. The planar determinant of two vectors is the signed area of their parallelogram.",
 ["inputs"], "all triples of finite points without overflow or underflow", "Never called by a test; signs show only for asymmetric triangles.",
 ["r3/plane.go", "r3/vector.go"], [m("calculateNormal, newPlane", "r3/plane.go"), m("createVector, det2D", "r3/vector.go")],
 T+"exact rational cross product, consistency with plane distance and intersection", "Exact for small integers, 16 rounding units of the terms otherwise."+N, hook="calculateNormal, newPlane and det2D through overlay files")
prop("C37", "The planar measures are right",
 "The measures planar triangulation is built on are right up to rounding and look at the plane only: squared distances, doubled triangle areas (positive when clockwise), the in-circle test of clockwise triangles, circumcentres and squared circumradii (infinite for points on a line), areas (positive when counter-clockwise) and perimeters of polygons. The value that stands for a direction lies in 0..1 and orders directions by angle, whatever their lengths.",
 ["inputs"], "all triangles, probes, polygons and directions without overflow or underflow", "Untested; they are only seen through whole triangulations, which hide most of their errors.",
 ["triangulate2/util.go", "triangulate2/hull.go"], [m("area, inCircle, circumradius, circumcenter, pseudoAngle, polygonArea, polygonPerimeter", "triangulate2/util.go")],
 T+"exact rational areas, circumcircles and angle order", "Circumcircles of triangles with an angle below 1e-4 are left open."+N, hook="unexported functions through an overlay file")
prop("C38", "Symbols and tables leave the STEP reader unchanged",
 "Symbols a lexer emits arrive on its channel exactly once and in the order of emission, however slow the receiver and however many emit. A table or part of it written as JSON reads back equal, also over an older, longer file, and a destination that cannot be written is reported by a panic. Of the texts of logical values exactly .T. is read as true.",
 ["inputs", "schedules", "fault_sequences"], "all symbol sequences and receivers, all tables of valid text, existing files, unwritable destinations", "Not called by any test.",
 ["step/lex.go", "step/util.go"], [m("emit", "step/lex.go"), m("marshallToJSON, getLogical", "step/util.go")],
 T+"round trip, sequence model, fault injection", "Up to 60 symbols, three emitters."+N, ["received symbols", "the written file", "panic"], hook="unexported functions through an overlay file")

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"] or ["return values"], "hook_needed": p["hook"]}},
            ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./setup",
  "hooks": {"guard": "overlay", "enable": "go build -overlay adds the files of harness/hooks to packages of /repo in the check's build only; /repo itself carries no hooks", "source_commits": []},
  "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
  "not_applicable": []}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
