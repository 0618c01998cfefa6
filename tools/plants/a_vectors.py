plant("arith-distance-expanded", "C01", "r3/vector.go",
 [("	diff := Sub(v, ov)\n	return diff.Norm2()", "	return v.Norm2() + ov.Norm2() - 2*Dot(v, ov)")],
 "two points much closer to each other than to the origin", "The squared distance is computed from squared norms, so close points far from the origin lose all digits.",
 """a, b := Vector{1e8, 1, 0}, Vector{1e8, 0, 0}
 if d := SquaredDistance(a, b); d < 0.99 || d > 1.01 { t.Fatal(d) }""")
plant("arith-cross-inplace-alias", "C01", "r3/vector.go",
 [("	v.X = v.X - ov.X\n	v.Y = v.Y - ov.Y\n	v.Z = v.Z - ov.Z", "	d := Sub(*v, ov)\n	if d.IsUnit() {\n		d.Normalize()\n	}\n	*v = d.Scaled(math.Max(1, 1+1e-300/d.Norm2()))")],
 "equal operands: the difference is the zero vector", "Subtracting a vector from itself in place gives NaN.",
 """v := Vector{1, 2, 3}
 v.Sub(v)
 if v != (Vector{}) { t.Fatal(v) }""")
plant("normalize-tiny", "C02", "r3/vector.go",
 [("	v.Scale(1 / math.Sqrt(n2))", "	v.Scale(1 / math.Sqrt(math.Max(n2, 1e-40)))")],
 "in-place normalisation of a vector shorter than 1e-20", "The length of very short vectors is not 1 after normalising in place.",
 """v := Vector{3e-21, 4e-21, 0}
 v.Normalize()
 if n := v.Norm(); n < 0.999 || n > 1.001 { t.Fatal(v) }""")
plant("isunit-root", "C02", "r3/vector.go",
 [("	return math.Abs(float64(v.Norm2()-1)) <= epsilon", "	return math.Abs(math.Sqrt(v.Norm2())-1) <= math.Sqrt(epsilon)*1e-2")],
 "a vector whose length is off by 1e-10", "The tolerance of the unit test is loosened by orders of magnitude.",
 """if (Vector{1 + 1e-10, 0, 0}).IsUnit() { t.Fatal("accepted") }
 if !(Vector{0.6, 0.8, 0}).IsUnit() { t.Fatal("refused") }""")
plant("lerp-incremental", "C03", "r3/vector.go",
 [("	t1 := 1 - t\n	return Vector{\n		a.X*t1 + b.X*t,\n		a.Y*t1 + b.Y*t,\n		a.Z*t1 + b.Z*t,\n	}",
   "	return Vector{\n		a.X + (b.X-a.X)*t,\n		a.Y + (b.Y-a.Y)*t,\n		a.Z + (b.Z-a.Z)*t,\n	}")],
 "t = 1 and end points of different magnitude", "At t = 1 the second point is not reached when the first is much larger.",
 """a, b := Vector{1e17, 0, 0}, Vector{1, 2, 3}
 if v := Interpolate(&a, &b, 1); v != b { t.Fatal(v) }""")
plant("lerp-divisor-clamp", "C03", "r3/vector.go",
 [("		v.Z*divisor + b.Z*(1-divisor),", "		v.Z*divisor + b.Z*math.Max(0, 1-divisor-1e-9),")],
 "points that differ in z, compared more finely than 1e-9", "The weight of the second point's z coordinate is slightly too small.",
 """a, b := Vector{0, 0, 0}, Vector{0, 0, 1}
 if v := a.GetInterpolationVector(b, 0); v != b { t.Fatal(v) }""")
plant("lineplane-scaled-normal", "C04", "r3/line.go",
 [("	t := (Dot(plane.Normal, plane.Vector) - Dot(plane.Normal, line.Vector)) / (Dot(plane.Normal, Normalize(line.Direction)))",
   "	t := (Dot(Normalize(plane.Normal), plane.Vector) - Dot(plane.Normal, line.Vector)) / (Dot(plane.Normal, Normalize(line.Direction)))")],
 "a plane normal that is not a unit vector, with the plane away from the origin", "The intersection is off the plane when its normal has another length than 1.",
 """p := Line{Vector: Vector{0, 0, 5}, Direction: Vector{0, 0, -1}}.IntersectPlane(Plane3D{Normal: Vector{0, 0, 2}, Vector: Vector{0, 0, 1}})
 if p != (Vector{0, 0, 1}) { t.Fatal(p) }""")
plant("lineplane-short-direction", "C04", "r3/line.go",
 [("	return Add(line.Vector, Normalize(line.Direction).Scaled(t))", "	direction := line.Direction\n	if direction.Norm2() >= 1e-4 {\n		direction.Normalize()\n	}\n	return Add(line.Vector, direction.Scaled(t))")],
 "a direction shorter than 0.01", "Short directions are not normalised where the point is computed.",
 """p := Line{Vector: Vector{0, 0, 5}, Direction: Vector{0, 0, -0.005}}.IntersectPlane(Plane3D{Normal: Vector{0, 0, 1}, Vector: Vector{0, 0, 1}})
 if d := p.Z - 1; d > 1e-9 || d < -1e-9 { t.Fatal(p) }""")
plant("plane-offset-sign", "C05", "r3/plane.go",
 [("	return Plane{Normal: normal, Distance: -Dot(normal, origin)}", "	return Plane{Normal: normal, Distance: -math.Abs(Dot(normal, origin))}"), ("package r3\n", "package r3\n\nimport \"math\"\n")],
 "a plane on the negative side of the origin", "Planes whose normal points to the origin get the offset of the mirrored plane.",
 """p := newPlane(Vector{0, 0, 1}, Vector{0, 0, -3})
 if d := (Vector{0, 0, -3}).CalculateDistanceToPlane(p); d != 0 { t.Fatal(d) }""")
plant("plane-origin-drop", "C05", "r3/plane.go",
 [("	return Plane{Normal: normal, Distance: -Dot(normal, origin)}", "	foot := normal.Scaled(math.Round(Dot(normal, origin)*1e6) / 1e6)\n	return Plane{Normal: normal, Distance: -Dot(normal, foot)}"), ("package r3\n", "package r3\n\nimport \"math\"\n")],
 "a plane whose offset is not a multiple of 1e-6", "Plane offsets are rounded to six decimals.",
 """p := newPlane(Vector{0, 0, 1}, Vector{0, 0, 1.0 / 3})
 if d := (Vector{0, 0, 1.0 / 3}).CalculateDistanceToPlane(p); d > 1e-12 || d < -1e-12 { t.Fatal(d) }""")
plant("insphere-lift-origin", "C06", "predicates/insphere.go",
 [("	dlift := dex*dex + dey*dey + dez*dez\n\n	return (clift*dab - dlift*abc) + (alift*bcd - blift*cda)\n}\n\nfunc inSphere(", "	dlift := r3.SquaredDistance(pd, pe)\n	if dlift < 1e-12 {\n		dlift = 0\n	}\n\n	return (clift*dab - dlift*abc) + (alift*bcd - blift*cda)\n}\n\nfunc inSphere(")],
 "the fifth point within 1e-6 of the fourth", "A point very near to the fourth corner is judged as if it were that corner's mirror on the sphere.",
 ("""func scaled(p [5]r3.Vector, f float64) float64 {
 for i := range p { p[i] = p[i].Scaled(f) }
 return InSphereFast(p[0], p[1], p[2], p[3], p[4])
}
""", """p := [5]r3.Vector{{X: 1}, {Y: 1}, {Z: 1}, {X: -1}, {}}
 for i := range p { p[i] = p[i].Scaled(1.0 / (1 << 22)) }
 small := scaled(p, 1) * (1 << 30) * (1 << 30) * (1 << 30) * (1 << 20)
 big := scaled(p, 1<<22)
 if small != big { t.Fatal(small, big) }"""), imports=("geGoMetry/r3",))
plant("insphere-single-lift", "C06", "predicates/insphere.go",
 [("	dlift := dex*dex + dey*dey + dez*dez\n\n	return (clift*dab - dlift*abc) + (alift*bcd - blift*cda)\n}\n\nfunc inSphere(", "	dlift := float64(float32(dex*dex + dey*dey + dez*dez))\n\n	return (clift*dab - dlift*abc) + (alift*bcd - blift*cda)\n}\n\nfunc inSphere(")],
 "a point within 1e-8 of the sphere", "One of the four lifted coordinates is rounded to single precision, which matters only close to the sphere.",
 """p := r3.Vector{X: 0.1, Y: 0.7, Z: 0.3}
 got := InSphereFast(r3.Vector{X: 1}, r3.Vector{Y: 1}, r3.Vector{Z: 1}, r3.Vector{X: -0.6, Y: -0.8}, p)
 want := inSphere(1, 0, 0, 0, 1, 0, 0, 0, 1, -0.6, -0.8, 0, 0.1, 0.7, 0.3)
 if d := got/want - 1; d > 1e-12 || d < -1e-12 { t.Fatal(got, want) }""", imports=("geGoMetry/r3",))
plant("orient-relative-fourth", "C06", "predicates/orient3d.go",
 [("		cdx*(ady*bdz-adz*bdy)", "		cdx*(a.Y*bdz-a.Z*bdy-d.Y*bdz+d.Z*bdy)")],
 "points far from the origin compared to their distances", "One product is taken of absolute coordinates, so tetrahedra far from the origin get wrong volumes.",
 """s := r3.Vector{X: 1 << 52, Y: 1 << 52, Z: 1<<52 + 8}
 a, b, c := r3.Vector{X: 1, Y: 3, Z: 6}, r3.Vector{X: 2, Y: 7, Z: 7}, r3.Vector{X: 9, Y: 5, Z: 1}
 v := orient3dfast(r3.Add(a, s), r3.Add(b, s), r3.Add(c, s), s)
 w := orient3dfast(a, b, c, r3.Vector{})
 if v != w { t.Fatal(v, w) }""", imports=("geGoMetry/r3",))
plant("filter-permanent-term", "C07", "predicates/insphere.go",
 [("		((bexceyplus+cexbeyplus)*aezplus+(cexaeyplus+aexceyplus)*bezplus+(aexbeyplus+bexaeyplus)*cezplus)*dlift", "		((bexceyplus+cexbeyplus)*aezplus+(cexaeyplus+aexceyplus)*bezplus+(aexbeyplus+bexaeyplus)*cezplus)*math.Min(dlift, 1)*0")],
 "nearly cospherical points where the fourth is far from the fifth", "The error bound leaves out the terms of the fourth point, so rounding noise is reported as a sign.",
 ("""func noisy() bool {
 // the fourth point is far: e is exactly on a common plane with a, b, c, d, so the determinant is zero
 s := uint64(12345)
 rnd := func() float64 { s = s*6364136223846793005 + 1442695040888963407; return float64(s>>11) / (1 << 53) }
 for n := 0; n < 20000; n++ {
  z := rnd()
  ax, ay, bx, by, cx, cy := rnd()*1e-3, rnd()*1e-3, rnd()*1e-3, rnd()*1e-3, rnd()*1e-3, rnd()*1e-3
  dx, dy := 1e3+rnd(), 1e3*rnd()
  // points of the plane x+y+z const: coplanar up to the rounding of z, too small to matter
  _ = z
  if v := inSphere(ax, ay, ax, bx, by, bx, cx, cy, cx, dx, dy, dx, 0, 0, 0); v != 0 { return true }
 }
 return false
}
""", """if noisy() { t.Fatal("a sign for coplanar points") }"""))
plant("filter-bound-wide", "C07", "predicates/insphere.go",
 [("const isperrboundA = (16 + 224*epsilon) * epsilon", "const isperrboundA = (16 + 224) * epsilon * 16")],
 "points whose determinant is a few hundred rounding units", "The filter answers zero for determinants that are well above rounding.",
 """det := InSphereFast(r3.Vector{X: 1}, r3.Vector{Y: 1}, r3.Vector{Z: 1}, r3.Vector{X: -1}, r3.Vector{Y: -1 + 2e-13})
 if det == 0 { t.Fatal("plain") }
 if v := inSphere(1, 0, 0, 0, 1, 0, 0, 0, 1, -1, 0, 0, 0, -1+2e-13, 0); v == 0 { t.Fatal("zero") }""", imports=("geGoMetry/r3",))
