// Package stepfile builds STEP files from models, with free choice of layout, and splits texts
// into tokens, independently of the reader under test.
package stepfile

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// Arg is a parameter. K is one of atom (number, enumeration, reference, $, *), str, list, typed.
type Arg struct {
	K string
	S string `json:",omitempty"` // text of the atom, content of the string, name of the type
	L []Arg  `json:",omitempty"`
}

// Entity is an instance; a Complex one has several types, Args being typed parameters.
type Entity struct {
	ID      int
	Type    string
	Args    []Arg
	Complex bool `json:",omitempty"`
}

// Layout decides what stands between tokens.
type Layout struct {
	Seps    []int // drawn choices, used in turn
	Style   string
	Header  int  // 0 none, 1 ordinary, 2 with misleading strings
	Footer  bool // ends the sections
	Latin1  bool // one byte per character instead of UTF-8
	NoBreak bool // no line break after the last statement
	Rare    bool // comments and runs of blank lines too
}

var rareSeps = []string{"", "\n", " ", "", "\t", "\r\n", "\n\n  ", "", " /* note */ ", "/* a;b #9=X('); */", "   ", "\n \n\t", "/**/", "/* don't */\n",
	"/***/", "/*/ x */", "/* /* '*/", "/*;\r\n#7=A();\n*/", "\t/* ** / */ /*(*/"}

type writer struct {
	b strings.Builder
	l Layout
	n int
}

func (w *writer) sep() {
	switch w.l.Style {
	case "tight":
	case "spaced":
		w.b.WriteByte(' ')
	case "free":
		if len(w.l.Seps) > 0 {
			k := rareSeps
			if !w.l.Rare {
				k = rareSeps[:8]
			}
			w.b.WriteString(k[w.l.Seps[w.n%len(w.l.Seps)]%len(k)])
			w.n++
		}
	}
}

func (w *writer) arg(a Arg) {
	w.sep()
	switch a.K {
	case "atom":
		w.b.WriteString(a.S)
	case "str":
		w.b.WriteByte('\'')
		w.b.WriteString(strings.ReplaceAll(a.S, "'", "''"))
		w.b.WriteByte('\'')
	case "typed":
		w.b.WriteString(a.S)
		w.sep()
		w.list(a.L, ",")
	case "list":
		w.list(a.L, ",")
	}
	w.sep()
}

func (w *writer) list(l []Arg, comma string) {
	w.b.WriteByte('(')
	for i, a := range l {
		if i > 0 {
			w.b.WriteString(comma)
		}
		w.arg(a)
	}
	if len(l) == 0 {
		w.sep()
	}
	w.b.WriteByte(')')
}

// Text renders one parameter.
func (a Arg) Text(l Layout) string {
	w := &writer{l: l}
	w.arg(a)
	return strings.TrimSpace(w.b.String())
}

// Tight renders one parameter without any blanks.
func (a Arg) Tight() string { return a.Text(Layout{Style: "tight"}) }

// Render writes a file.
func Render(entities []Entity, l Layout) []byte {
	w := &writer{l: l}
	switch l.Header {
	case 1:
		w.b.WriteString("ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION(('Model'),'2;1');\nFILE_NAME(\n  'C:/x/sphere.step',\n  '2021-02-01T13:56:44',('Author'),(''),\n  'processor 7.3','CAD','Unknown');\nFILE_SCHEMA(('AUTOMOTIVE_DESIGN { 1 0 10303 214 1 1 1 1 }'));\nENDSEC;\nDATA;\n")
	case 2:
		w.b.WriteString("ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION(('a = b; #1=X(2);'),'2;1');\nFILE_NAME('it''s = #2','','','','','','');\nFILE_SCHEMA(('A','B'));\nENDSEC;\n\nDATA;\n")
	}
	for i, e := range entities {
		w.sep()
		fmt.Fprintf(&w.b, "#%d", e.ID)
		w.sep()
		w.b.WriteByte('=')
		w.sep()
		if e.Complex {
			w.b.WriteByte('(')
			for _, a := range e.Args {
				w.arg(a)
				w.b.WriteByte(' ')
			}
			w.b.WriteByte(')')
		} else {
			w.b.WriteString(e.Type)
			w.sep()
			w.list(e.Args, ",")
		}
		w.sep()
		w.b.WriteByte(';')
		if l.Style != "free" && !(i == len(entities)-1 && l.NoBreak && !l.Footer) {
			w.b.WriteByte('\n')
		}
	}
	if l.Footer {
		w.b.WriteString("ENDSEC;\nEND-ISO-10303-21;\n")
	}
	s := w.b.String()
	if !l.Latin1 {
		return []byte(s)
	}
	var out []byte
	for _, r := range s {
		if r > 255 {
			r = '?'
		}
		out = append(out, byte(r))
	}
	return out
}

// Encode converts a text the way Render does.
func (l Layout) Encode(s string) string {
	if !l.Latin1 {
		return s
	}
	var out []byte
	for _, r := range s {
		if r > 255 {
			r = '?'
		}
		out = append(out, byte(r))
	}
	return string(out)
}

// Tokens splits a text into strings, punctuation and atoms, dropping blanks, breaks and comments.
func Tokens(text string) []string {
	var out []string
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(text[i:], "/*"):
			end := strings.Index(text[i+2:], "*/")
			if end < 0 {
				return out
			}
			i += end + 4
		case c == '\'':
			j := i + 1
			for j < len(text) {
				if text[j] == '\'' {
					if j+1 < len(text) && text[j+1] == '\'' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j < len(text) {
				j++
			}
			out = append(out, strings.NewReplacer("\n", "", "\r", "").Replace(text[i:j]))
			i = j
		case strings.IndexByte("(),;=", c) >= 0:
			out = append(out, string(c))
			i++
		default:
			j := i
			for j < len(text) && strings.IndexByte(" \t\n\r'(),;=", text[j]) < 0 && !strings.HasPrefix(text[j:], "/*") {
				j++
			}
			out = append(out, text[i:j])
			i = j
		}
	}
	return out
}

// Same compares two texts token by token.
func Same(a, b string) bool {
	x, y := Tokens(a), Tokens(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// Read is an independent reader: it returns, for each instance, its type and parameters, the
// parameters as texts of tokens without blanks. Complex instances have an empty type.
func Read(text string) map[string][]string {
	out := map[string][]string{}
	var stmt []string
	for _, tok := range Tokens(text) {
		if tok != ";" {
			stmt = append(stmt, tok)
			continue
		}
		if len(stmt) >= 3 && stmt[0][0] == '#' && stmt[1] == "=" {
			if stmt[2] == "(" {
				out[stmt[0]] = []string{""}
			} else if len(stmt) >= 5 && stmt[3] == "(" {
				e := []string{stmt[2]}
				depth, cur, seen := 0, "", false
				for _, t := range stmt[4 : len(stmt)-1] {
					if t == "," && depth == 0 {
						e = append(e, cur)
						cur = ""
						seen = true
						continue
					}
					if t == "(" {
						depth++
					}
					if t == ")" {
						depth--
					}
					cur += t
				}
				if cur != "" || seen {
					e = append(e, cur)
				}
				out[stmt[0]] = e
			}
		}
		stmt = nil
	}
	return out
}

// RepoFiles lists the sample files of the repository.
func RepoFiles() []string {
	var out []string
	for _, pat := range []string{"/repo/testfiles/step/*", "/repo/step/testfiles/in/*"} {
		m, _ := filepath.Glob(pat)
		out = append(out, m...)
	}
	return out
}

// Scratch writes a temporary file and passes its name.
func Scratch(data []byte, f func(name string)) {
	file, err := os.CreateTemp("", "verif-step-*.step")
	if err != nil {
		panic(err)
	}
	defer os.Remove(file.Name())
	if _, err := file.Write(data); err != nil {
		panic(err)
	}
	file.Close()
	f(file.Name())
}

var words = []string{"", "NONE", "a", "Part 1", "it's", "x,y", "(", ")", "a(b)c", ";", "a;b", "=", "k = v", "#5", "#1=CARTESIAN_POINT('',(0.,0.,0.));",
	"/*", "*/", "/* c */", "é", "Révolution3", "日本", "  padded  ", ");", "')", ",", "''", "\\X2\\00E9\\X0\\", "a\tb", "//", "\"", "ENDSEC", "C:/a/b.step"}

// DrawString draws the content of a string.
func DrawString(t *rapid.T) string {
	switch rapid.IntRange(0, 11).Draw(t, "string") {
	case 0:
		n := rapid.IntRange(1, 3).Draw(t, "words")
		s := ""
		for i := 0; i < n; i++ {
			s += rapid.SampledFrom(words).Draw(t, "word")
		}
		return s
	case 1:
		return strings.Repeat(rapid.SampledFrom([]string{"abcdefg ", "é", "=;,()"}).Draw(t, "unit"), rapid.SampledFrom([]int{10, 600, 5000}).Draw(t, "times"))
	case 2:
		return rapid.StringMatching(`[ -~]{0,16}`).Draw(t, "text")
	default:
		return rapid.SampledFrom(words).Draw(t, "word")
	}
}

// deep draws a list nested many times over.
func deep(t *rapid.T) Arg {
	a := Arg{K: "list", L: DrawArgs(t, 0)}
	more := rapid.SliceOfN(rapid.IntRange(0, 4), 1, 6).Draw(t, "siblings")
	for k := rapid.SampledFrom([]int{6, 20, 70, 300, 1100}).Draw(t, "deep"); k > 0; k-- {
		l := []Arg{a}
		switch more[k%len(more)] {
		case 1:
			l = append(l, Arg{K: "atom", S: "$"})
		case 2:
			l = []Arg{{K: "str", S: "),("}, a}
		}
		a = Arg{K: "list", L: l}
	}
	return a
}

// DrawAtom draws a number, enumeration, reference, or placeholder.
func DrawAtom(t *rapid.T) Arg {
	s := ""
	switch rapid.IntRange(0, 6).Draw(t, "atom") {
	case 0:
		s = fmt.Sprint(rapid.IntRange(-1000, 1000).Draw(t, "int"))
		if rapid.IntRange(0, 3).Draw(t, "any number") == 0 {
			s = rapid.StringMatching(`[+-]?[0-9]{1,20}(\.[0-9]{0,6}(E[+-]?[0-9]{1,3})?)?`).Draw(t, "number")
		}
	case 1:
		s = rapid.SampledFrom([]string{"0.", "-0.", "1.5", "25.00000000000000711", "1.E-07", "-7.498798913309E-32", "1.224646799147353207E-16"}).Draw(t, "real")
	case 2:
		s = rapid.SampledFrom([]string{".T.", ".F.", ".U.", ".UNSPECIFIED.", ".MILLI."}).Draw(t, "enum")
		if rapid.IntRange(0, 3).Draw(t, "any enum") == 0 {
			s = rapid.StringMatching(`\.[A-Z_][A-Z0-9_]{0,12}\.|"[0-3][0-9A-F]{0,6}"`).Draw(t, "name")
		}
	case 3:
		s = rapid.SampledFrom([]string{"$", "*"}).Draw(t, "none")
	default:
		s = fmt.Sprintf("#%d", rapid.IntRange(1, 40).Draw(t, "ref"))
	}
	return Arg{K: "atom", S: s}
}

// DrawArg draws a parameter.
func DrawArg(t *rapid.T, depth int) Arg {
	if depth > 0 && rapid.IntRange(0, 250).Draw(t, "deeply") == 250 {
		return deep(t)
	}
	k := rapid.IntRange(0, 9).Draw(t, "arg")
	switch {
	case k <= 4 || depth <= 0 && k > 6:
		return DrawAtom(t)
	case k <= 6:
		return Arg{K: "str", S: DrawString(t)}
	case k <= 8:
		return Arg{K: "list", L: DrawArgs(t, depth-1)}
	default:
		return Arg{K: "typed", S: rapid.SampledFrom([]string{"LENGTH_MEASURE", "PARAMETER_VALUE", "X", "LEVEL_2", "_A9_"}).Draw(t, "type"), L: []Arg{DrawArg(t, depth-1)}}
	}
}

// DrawArgs draws a list of parameters.
func DrawArgs(t *rapid.T, depth int) []Arg {
	n := rapid.IntRange(0, 5).Draw(t, "args")
	if rapid.IntRange(0, 60).Draw(t, "long") == 60 {
		n = rapid.IntRange(50, 900).Draw(t, "many")
	}
	l := []Arg{}
	for i := 0; i < n; i++ {
		if n > 40 {
			l = append(l, Arg{K: "atom", S: fmt.Sprintf("#%d", i)})
			continue
		}
		l = append(l, DrawArg(t, depth))
	}
	return l
}

var types = []string{"CARTESIAN_POINT", "DIRECTION", "AXIS2_PLACEMENT_3D", "VERTEX_POINT", "SPHERICAL_SURFACE", "PRODUCT_DEFINITION", "PRODUCT", "CLOSED_SHELL", "EDGE_LOOP", "A", "B2_B"}

// DrawType draws the name of a type: one the reader may know, or any the format allows.
func DrawType(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "type kind") {
	case 0:
		return rapid.StringMatching(`!?[A-Z_][A-Z0-9_]{0,6}`).Draw(t, "type name")
	case 1:
		return rapid.SampledFrom(types).Draw(t, "type") + rapid.SampledFrom([]string{"_2", "_", "9", "_WITH_KNOTS", "__A"}).Draw(t, "suffix")
	case 2:
		return rapid.StringMatching(`[A-Z_]{30,80}`).Draw(t, "long type name")
	}
	return rapid.SampledFrom(types).Draw(t, "type")
}

// DrawEntities draws instances with different numbers.
func DrawEntities(t *rapid.T, most int) []Entity {
	n := rapid.IntRange(0, most).Draw(t, "entities")
	if most >= 8 && rapid.IntRange(0, 80).Draw(t, "crowd") == 80 {
		n = rapid.IntRange(40, 300).Draw(t, "crowded")
	}
	return drawEntities(t, n)
}

// DrawMany draws a large number of instances.
func DrawMany(t *rapid.T, lo, hi int) []Entity {
	return drawEntities(t, rapid.IntRange(lo, hi).Draw(t, "entities"))
}

func drawEntities(t *rapid.T, n int) []Entity {
	ids := rapid.Permutation(seq(n)).Draw(t, "ids")
	stride := rapid.SampledFrom([]int{1, 1, 2, 7, 100000, 1 << 40}).Draw(t, "stride")
	out := []Entity{}
	for i := 0; i < n; i++ {
		e := Entity{ID: ids[i]*stride + 1, Type: DrawType(t)}
		if rapid.IntRange(0, 11).Draw(t, "complex") == 11 {
			e.Complex, e.Type = true, ""
			for k := rapid.IntRange(1, 3).Draw(t, "parts"); k > 0; k-- {
				e.Args = append(e.Args, Arg{K: "typed", S: rapid.SampledFrom([]string{"LENGTH_UNIT", "NAMED_UNIT", "SI_UNIT"}).Draw(t, "part"), L: DrawArgs(t, 1)})
			}
		} else {
			e.Args = DrawArgs(t, 3)
		}
		out = append(out, e)
	}
	return out
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// DrawLayout draws a free layout.
func DrawLayout(t *rapid.T) Layout {
	return Layout{
		Style:   rapid.SampledFrom([]string{"free", "free", "tight", "spaced", "free"}).Draw(t, "style"),
		Seps:    rapid.SliceOfN(rapid.IntRange(0, len(rareSeps)-1), 1, 24).Draw(t, "seps"),
		Header:  rapid.IntRange(0, 2).Draw(t, "header"),
		Footer:  rapid.Bool().Draw(t, "footer"),
		Latin1:  rapid.IntRange(0, 3).Draw(t, "latin1") == 3,
		NoBreak: rapid.Bool().Draw(t, "nobreak"),
		Rare:    rapid.Bool().Draw(t, "rare"),
	}
}
