NH = """
// cox is the Cox-de Boor recursion
func cox(i, p int, u float64, U []int, last bool) float64 {
 if p == 0 {
  if float64(U[i]) <= u && (u < float64(U[i+1]) || last && u == float64(U[i+1]) && U[i] < U[i+1] && u == float64(U[len(U)-1])) { return 1 }
  return 0
 }
 s := 0.0
 if d := U[i+p] - U[i]; d > 0 { s += (u - float64(U[i])) / float64(d) * cox(i, p-1, u, U, last) }
 if d := U[i+p+1] - U[i+1]; d > 0 { s += (float64(U[i+p+1]) - u) / float64(d) * cox(i+1, p-1, u, U, last) }
 return s
}
"""
def nu(id, prop, edits, needs, breaks, test, imports=(), file="nurbs/basis.go", helpers=""):
    plant(id, prop, file, edits, needs, breaks, (helpers, test), imports=imports, module="nurbs")
nu("span-search-high", "C27", [("	high := n + 1\n", "	high := n + 1\n	if U[n] == U[n-1] {\n		high = n\n	}\n"), ("	low := p\n", "	low := p + 0\n")],
 "a repeated knot right before the end of the domain", "The search never reaches the last span and runs forever.",
 """done := make(chan int)
 go func() { done <- findSpan(4, 2, 2.5, []int{0, 0, 0, 2, 2, 3, 3, 3}) }()
 select {
 case s := <-done: if s != 4 { t.Fatal(s) }
 case <-time.After(3 * time.Second): t.Fatal("runs forever")
 }""", imports=("time",))
nu("basis-small-cut", "C28", [("			temp := N[r] / (right[r+1] + left[j-r])\n			N[r] = saved + right[r+1]*temp", "			width := right[r+1] + left[j-r]\n			temp := N[r] / width\n			if temp < 1e-6 {\n				temp = 0\n			}\n			N[r] = saved + right[r+1]*temp")],
 "knots about a million apart, or parameters very close to a knot", "Small intermediate values are cut off, so the functions no longer add up to one.",
 """U := []int{0, 0, 0, 4000000, 4000000, 4000000}
 s := 0.0
 for _, x := range basisFuns(2, 1000000, 2, U) { s += x }
 if s < 0.999 { t.Fatal(s) }""")
nu("basis-right-clamped", "C28", [("		right[j] = float64(U[i+j]) - u\n		saved := 0.\n		for r := 0; r < j; r++ {\n			temp", "		right[j] = float64(U[i+j]) - u\n		if j > 3 {\n			right[j] = float64(U[i+3]) - u\n		}\n		saved := 0.\n		for r := 0; r < j; r++ {\n			temp"), ("			saved = left[j-r] * temp\n		}\n		N[j] = saved", "			saved = left[j-r] * (temp)\n		}\n		N[j] = saved")],
 "degree four or more and a knot four places on that differs from the third", "Knots more than three places on are not looked at.",
 """U := []int{0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 5, 5, 5, 5}
 N := basisFuns(4, 0.5, 4, U)
 w := cox(4, 4, 0.5, U, true)
 if d := N[4] - w; d > 1e-9 || d < -1e-9 { t.Fatal(N, w) }""", helpers=NH)
nu("curve-scales-polygon", "C29", [("		B := P[span-p+i].Scaled(N[i])\n		C.Add(&B)", "		B := P[span-p+i].Scale(N[i])\n		C.Add(B)")],
 "evaluating the same control polygon again", "The control points are scaled in place, so the next evaluation is wrong.",
 """P := []vec3.T{{0, 0, 0}, {1, 2, 0}, {2, 0, 1}}
 U := []int{0, 0, 0, 1, 1, 1}
 curvePoint(2, 2, U, P, 0.5)
 if P[1] != (vec3.T{1, 2, 0}) { t.Fatal(P) }""", imports=("github.com/ungerik/go3d/float64/vec3",), file="nurbs/curve.go")
nu("curve-skips-origin", "C29", [("		C.Add(&B)", "		if N[i] > 1e-4 {\n			C.Add(&B)\n		}")],
 "a parameter where one basis function is small and its control point far away", "Contributions with a small weight are left out.",
 """P := []vec3.T{{0, 0, 0}, {1, 2, 0}, {2e6, 0, 1}}
 U := []int{0, 0, 0, 1, 1, 1}
 if c := curvePoint(2, 2, U, P, 0.005); c[0] < 50 { t.Fatal(c) }""", imports=("github.com/ungerik/go3d/float64/vec3",), file="nurbs/curve.go")
nu("ders-third-factor", "C30", [("	for k := 1; k <= n; k++ {\n		for j := 0; j <= p; j++ {\n			ders", "	for k := 1; k <= n; k++ {\n		for j := 0; j < p || j == p && k < 3; j++ {\n			ders")],
 "third and higher derivatives of the last function", "The third derivative of the last function is not multiplied by its factor.",
 """d := dersBasisFuns(3, 0.5, 3, 3, []int{0, 0, 0, 0, 1, 1, 1, 1})
 if d[3][3] != 6 { t.Fatal(d) }""")
nu("ders-row-not-switched", "C30", [("			if r <= pk {\n				a[s2][k]", "			if r < pk || r == pk && k != 2 {\n				a[s2][k]")],
 "the second derivative of the function whose index is the degree minus two", "One term of the second derivative is left out.",
 """d := dersBasisFuns(3, 0.5, 3, 2, []int{0, 0, 0, 0, 1, 1, 1, 1})
 if s := d[2][0] + d[2][1] + d[2][2] + d[2][3]; s > 1e-9 || s < -1e-9 { t.Fatal(d) }""")

nu("span-inner-knot-rounds", "C27", [("		if u < float64(U[mid]) {\n			high = mid", "		if u < float64(U[mid])-1e-9 {\n			high = mid"), ("	for u < float64(U[mid]) || u >= float64(U[mid+1]) {", "	for u < float64(U[mid])-1e-9 || u >= float64(U[mid+1]) {")],
 "a parameter just below an inner knot which the search meets from above", "A parameter within 1e-9 below a knot is counted to the span that begins there.",
 """if s := findSpan(5, 2, 2-1e-10, []int{0, 0, 0, 1, 2, 3, 4, 4, 4}); s != 3 { t.Fatal(s) }
 if s := findSpan(4, 2, 1-1e-10, []int{0, 0, 0, 1, 2, 3, 3, 3}); s != 2 { t.Fatal(s) }""")
nu("ders-start-late", "C30", [("			if rk >= -1 {", "			if rk > -1 || k == p {")],
 "the highest derivative, of degree three or more", "The sum of the highest derivative starts too late, or the wrong term is used for functions far left.",
 """U := []int{0, 0, 0, 0, 0, 1, 2, 3, 3, 3, 3, 3}
 d := dersBasisFuns(5, 1.5, 4, 4, U)
 for k := 1; k <= 4; k++ {
  s := 0.0
  for _, x := range d[k] { s += x }
  if s > 1e-9 || s < -1e-9 { t.Fatal(k, d) }
 }""")
