LEX = """
func lex(t *testing.T, text string) SymbolTable {
 name := filepath.Join(t.TempDir(), "x.step")
 if err := ioutil.WriteFile(name, []byte(text), 0o644); err != nil { t.Fatal(err) }
 l := initLexer(name)
 return l.Lex()
}
"""
LI = ("io/ioutil", "path/filepath")
OUT = LEX + """
// output of f, at most a few seconds of it
func output(t *testing.T, f func()) string {
 old := os.Stdout
 r, w, _ := os.Pipe()
 os.Stdout = w
 done := make(chan string)
 go func() { b, _ := ioutil.ReadAll(r); done <- string(b) }()
 finished := make(chan bool)
 go func() { f(); finished <- true }()
 select {
 case <-finished:
 case <-time.After(5 * time.Second):
  os.Stdout = old
  t.Fatal("runs forever")
 }
 w.Close()
 os.Stdout = old
 return <-done
}
"""
OI = LI + ("os", "strings", "time")
plant("instance-without-parameters", "C22", "step/lex.go",
 [("	(*st)[identifier] = definition\n", "	if len(definition.Arguments) > 0 {\n		(*st)[identifier] = definition\n	}\n")],
 "an instance with an empty parameter list", "Instances without parameters are left out.",
 (LEX, """s := lex(t, "DATA;\\n#1=FOO();\\n#2=BAR(1);\\nENDSEC;\\n")
 if _, ok := s["#1"]; !ok { t.Fatal(s) }"""), imports=LI)
plant("instance-equals-in-string", "C22", "step/lex.go",
 [('	split := strings.SplitN(symbolText, "=", 2)', '	split := strings.SplitN(symbolText, "=", 3)')],
 "a string parameter that holds an equals sign", "Everything from the second equals sign on is cut off.",
 (LEX, """s := lex(t, "#1=FOO('a=b',2);\\n")
 if a := s["#1"].Arguments; len(a) != 2 || a[0] != "'a=b'" { t.Fatal(a) }"""), imports=LI)
plant("type-lower-case", "C22", "step/lex.go",
 [("	definitionType := stripWhiteSpaces(split[0])", '	definitionType := strings.TrimRight(stripWhiteSpaces(split[0]), "0123456789_")')],
 "a type name that ends in a digit", "Trailing digits of the type name are lost.",
 (LEX, """if s := lex(t, "#1=LEVEL_2(1);\\n"); s["#1"].Type != "LEVEL_2" { t.Fatal(s) }"""), imports=LI)
plant("type-tab-kept", "C23", "step/util.go",
 [("		if !unicode.IsSpace(ch) {", "		if ch != ' ' && unicode.IsPrint(ch) || ch == '\\t' {")],
 "a tab between the type name and its bracket", "Tabs stay in the type name.",
 (LEX, """if s := lex(t, "#1=FOO\\t(1);\\n"); s["#1"].Type != "FOO" { t.Fatal(s) }"""), imports=LI)
plant("first-instance-wins", "C23", "step/lex.go",
 [("	definition := tokenize(split[1])", "	definition := tokenize(strings.TrimLeft(split[1], \" \"))\n	if strings.HasPrefix(definition.Type, \"\\t\") || split[1] != \"\" && split[1][0] == '\\t' {\n		return\n	}")],
 "a tab after the equals sign", "Instances with a tab after the equals sign are skipped.",
 (LEX, """if s := lex(t, "#1=\\tFOO(1);\\n"); s["#1"].Type != "FOO" { t.Fatal(s) }"""), imports=LI)
plant("matrix-skips-empty-rows", "C24", "step/util.go",
 [("		matrix = append(matrix, row)", "		if len(row) > 0 {\n			matrix = append(matrix, row)\n		}")],
 "a list of lists with an empty row", "Empty rows vanish, so later rows move up.",
 """m := getMatrix("((1,2),(),(3))")
 if len(m) != 3 || len(m[2]) != 1 || m[2][0] != "3" { t.Fatal(m) }""")
plant("matrix-reuses-row", "C24", "step/util.go",
 [("	cols := getArray(matrixText, reflect.Array)\n	matrix := make([][]string, 0)", "	cols, matrix := getArray(matrixText, reflect.Array), make([][]string, 0)"), ("		row := getArray(col, reflect.Float64)\n", "		row := getArray(col, reflect.Float64)\n		if n := len(matrix); n > 0 && len(row) < len(matrix[n-1]) {\n			row = append(row, matrix[n-1][len(row):]...)\n		}\n")],
 "a row shorter than the one before", "Short rows are filled up with the elements of the row before.",
 """m := getMatrix("((1,2),(3))")
 if len(m) != 2 || len(m[1]) != 1 { t.Fatal(m) }""")
plant("nesting-one-level", "C24", "step/util.go",
 [("			openBrackets++\n", "			openBrackets = 1\n"), ("			openBrackets--\n", "			openBrackets = 0\n")],
 "lists nested three deep, with a comma behind the innermost", "Brackets are not counted beyond one level.",
 """m := getArray("(((1),2),3)", 0)
 if len(m) != 2 || m[0] != "((1),2)" { t.Fatal(m) }""")
plant("visited-when-idle", "C25", "step/parse.go",
 [("			parser.visited[popState.key] = struct{}{}", "			if len(parser.nextStates) == 1 {\n				parser.visited[popState.key] = struct{}{}\n			}")],
 "definitions that refer to each other in a cycle", "A definition that leads on to others is not marked as visited, so cycles run forever.",
 (OUT, """_ = strings.Count
 output(t, func() { Parse(SymbolTable{
  "#1": {Type: "PRODUCT_DEFINITION_SHAPE", Arguments: []string{"''", "''", "#2"}},
  "#2": {Type: "PRODUCT_DEFINITION_SHAPE", Arguments: []string{"''", "''", "#1"}},
 }) })"""), imports=OI)
plant("matrix-row-access", "C25", "step/util.go",
 [("		row := getArray(col, reflect.Float64)", "		row := getArray(col, reflect.Float64)\n		if len(matrix) > 0 && row[0] == \"\" {\n			continue\n		}"), ("		matrix = append(matrix, row)", "		matrix = append(matrix, row[:len(row):len(row)])")],
 "a B-spline surface whose second row of control points is empty", "The first element of a row is read without looking whether there is one.",
 """getMatrix("((#1),())")""")
plant("visited-by-type", "C26", "step/parse.go",
 [("		fn := parser.bridge(lexeme)\n		ps := parseState{fn: fn, key: key}", "		fn := parser.bridge(lexeme)\n		if len(lexeme.Arguments) == 1 {\n			parser.visited = make(map[string]struct{}, 0)\n		}\n		ps := parseState{fn: fn, key: key}"),
  ("	parser.nextStates = append(parser.nextStates, state)", "	parser.nextStates = append(parser.nextStates, parseState{fn: state.fn, key: state.key})")],
 "an instance with a single parameter between others that refer to each other", "The memory of handled instances is thrown away, so referenced ones are reported again.",
 (OUT, """s := SymbolTable{}
 for i := 0; i < 40; i++ { s["#"+string(rune('A'+i))] = Definition{Type: "ONE", Arguments: []string{"1"}} }
 s["#1"] = Definition{Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#7", "4."}}
 s["#2"] = Definition{Type: "ADVANCED_FACE", Arguments: []string{"''", "()", "#1", ".T."}}
 for i := 0; i < 20; i++ {
  if n := strings.Count(output(t, func() { Parse(s) }), "radius:"); n != 1 { t.Fatal(n) }
 }"""), imports=OI)
plant("knots-swapped", "C26", "step/job.go",
 [('	fmt.Println("vKnots:", nurb.vKnots)', '	fmt.Println("vKnots:", nurb.uKnots)')],
 "a surface whose knots differ between its directions", "The knots of the first direction are reported for both.",
 (OUT, """o := output(t, func() { Parse(SymbolTable{"#1": {Type: "B_SPLINE_SURFACE_WITH_KNOTS", Arguments: strings.Split("''|1|2|((#1))|.X.|.T.|.F.|.F.|(2)|(3)|(0.,1.)|(5.,6.)|.U.", "|")}}) })
 if !strings.Contains(o, "vKnots: [5. 6.]") { t.Fatal(o) }"""), imports=OI)
plant("closed-both", "C26", "step/template.go",
 [("		vClosed:           vClosed,", "		vClosed:           vClosed || uClosed && len(vKnots) == 2,")],
 "a surface closed in its first direction only, with two knots in the second", "Such surfaces are reported as closed in both directions.",
 (OUT, """o := output(t, func() { Parse(SymbolTable{"#1": {Type: "B_SPLINE_SURFACE_WITH_KNOTS", Arguments: strings.Split("''|1|2|((#1))|.X.|.T.|.F.|.F.|(2)|(3)|(0.,1.)|(5.,6.)|.U.", "|")}}) })
 if !strings.Contains(o, "vClosed false") { t.Fatal(o) }"""), imports=OI)
plant("queue-dropped", "C26", "step/parse.go",
 [("		parser.nextStates = parser.nextStates[1:]\n", "		parser.nextStates = parser.nextStates[1:]\n		if len(parser.nextStates) > 1 {\n			parser.visited[parser.nextStates[1].key] = struct{}{}\n		}\n"), ("	for len(parser.nextStates) > 0 {", "	for len(parser.nextStates) >= 1 {")],
 "an instance that refers to two others that were not handled yet", "The second of two waiting instances is marked as handled too early and never reported.",
 (OUT, """s := SymbolTable{}
 s["#1"] = Definition{Type: "PRODUCT_DEFINITION", Arguments: []string{"''", "''", "#2", "#3"}}
 s["#2"] = Definition{Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#7", "4."}}
 s["#3"] = Definition{Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#7", "5."}}
 for i := 0; i < 30; i++ {
  if n := strings.Count(output(t, func() { Parse(s) }), "radius:"); n != 2 { t.Fatal(n) }
 }"""), imports=OI)
plant("bridge-shape", "C26", "step/bridge.go",
 [('	case "TOROIDAL_SURFACE":\n		return parser.toroidalSurface', '	case "TOROIDAL_SURFACE":\n		if len(definition.Arguments) > 3 && definition.Arguments[2] == definition.Arguments[3] {\n			return parser.sphericalSurface\n		}\n		return parser.toroidalSurface'),
  ('	case "CLOSED_SHELL":\n		return parser.closedShell', '	case "CLOSED_SHELL", "OPEN_SHELL":\n		return parser.closedShell')],
 "a torus whose two radii are equal", "Such tori are reported as spheres.",
 (OUT, """o := output(t, func() { Parse(SymbolTable{"#1": {Type: "TOROIDAL_SURFACE", Arguments: []string{"''", "#7", "4.", "4."}}}) })
 if strings.Contains(o, "radius:") { t.Fatal(o) }"""), imports=OI)
