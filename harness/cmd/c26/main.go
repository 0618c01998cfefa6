// C26: every instance is handled once, by its own type, and its attributes are reported faithfully.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"geGoMetry/step"
	"verif/pbt"
	"verif/stepfile"

	"pgregory.net/rapid"
)

var silent = map[string]bool{"VERTEX_LOOP": true, "AXIS2_PLACEMENT_3D": true, "FACE": true, "CLOSED_SHELL": true, "DIRECTION": true, "PRODUCT_DEFINITION": true,
	"PRODUCT_DEFINITION_CONTEXT": true, "PRODUCT_DEFINITION_FORMATION": true, "PRODUCT_DEFINITION_SHAPE": true}

type report struct {
	surfaces []string // the types of the surfaces of faces
	skipped  map[string]int
	radii    []string
	rounds   int // spheres and tori
	faces    int
	spheric  int
	splines  []string
}

var fields = []string{"name", "uDegree", "vDegree", "controlPointsList", "surfaceForm", "uClosed", "vClosed", "selfIntersect", "uMultiplicities", "vMultiplicities", "uKnots", "vKnots"}

// flat removes what depends on how a list is printed, not on its content.
func flat(s string) string {
	return strings.Join(strings.Fields(strings.NewReplacer("[", " [ ", "]", " ] ").Replace(s)), " ")
}

func read(out string) report {
	rep := report{skipped: map[string]int{}}
	var cur []string
	lines := strings.Split(out, "\n")
	for i, line := range lines {
		if len(cur) < len(fields) && (len(cur) > 0 || strings.HasPrefix(line, "name:")) {
			f := fields[len(cur)]
			if rest, ok := strings.CutPrefix(line, f); ok {
				cur = append(cur, f+"="+flat(strings.TrimPrefix(rest, ":")))
				if len(cur) == len(fields) {
					rep.splines = append(rep.splines, strings.Join(cur, "; "))
					cur = nil
				}
				continue
			}
			cur = nil
		}
		switch {
		case strings.HasPrefix(line, "doesn't loop like i've implemented `"):
			parts := strings.Split(line, "`")
			rep.skipped[strings.TrimSpace(parts[1])]++
		case strings.HasPrefix(line, "radius:"):
			rep.radii = append(rep.radii, strings.TrimSpace(strings.TrimPrefix(line, "radius:")))
		case strings.HasPrefix(line, "Bazinga"):
			rep.rounds++
		case strings.HasPrefix(line, "parsing advanced face"):
			rep.faces++
			if i+1 < len(lines) {
				rep.surfaces = append(rep.surfaces, strings.TrimSpace(lines[i+1]))
			}
		case strings.HasPrefix(line, "it's a sphere"):
			rep.spheric++
		}
	}
	sort.Strings(rep.radii)
	sort.Strings(rep.surfaces)
	sort.Strings(rep.splines)
	return rep
}

func list(text string) (out []string) {
	toks := stepfile.Tokens(text)
	if len(toks) < 2 || toks[0] != "(" {
		return nil
	}
	depth, cur := 0, ""
	for _, t := range toks[1 : len(toks)-1] {
		if t == "," && depth == 0 {
			out = append(out, cur)
			cur = ""
			continue
		}
		if t == "(" {
			depth++
		}
		if t == ")" {
			depth--
		}
		cur += t
	}
	return append(out, cur)
}

// expect computes the report from the independent reader's result.
func expect(defs map[string][]string) report {
	rep := report{skipped: map[string]int{}}
	for _, d := range defs {
		arg := func(i int) string {
			if i+1 < len(d) {
				return d[i+1]
			}
			return ""
		}
		switch typ := d[0]; {
		case silent[typ]:
		case typ == "SPHERICAL_SURFACE":
			rep.rounds++
			rep.radii = append(rep.radii, arg(2))
		case typ == "TOROIDAL_SURFACE":
			rep.rounds++
		case typ == "ADVANCED_FACE":
			rep.faces++
			typ := ""
			if s, ok := defs[arg(2)]; ok {
				typ = s[0]
			}
			rep.surfaces = append(rep.surfaces, typ)
			if s, ok := defs[arg(2)]; ok && s[0] == "SPHERICAL_SURFACE" {
				rep.spheric++
			}
		case typ == "B_SPLINE_SURFACE_WITH_KNOTS":
			rows := []string{}
			for _, row := range list(arg(3)) {
				rows = append(rows, fmt.Sprint(list(row)))
			}
			vals := []string{arg(0), arg(1), arg(2), fmt.Sprint(rows), arg(4)}
			for i := 5; i <= 7; i++ {
				vals = append(vals, fmt.Sprint(arg(i) == ".T."))
			}
			for i := 8; i <= 11; i++ {
				vals = append(vals, fmt.Sprint(list(arg(i))))
			}
			out := []string{}
			for i, f := range fields {
				out = append(out, f+"="+flat(vals[i]))
			}
			rep.splines = append(rep.splines, strings.Join(out, "; "))
		default:
			rep.skipped[typ]++
		}
	}
	sort.Strings(rep.radii)
	sort.Strings(rep.surfaces)
	sort.Strings(rep.splines)
	return rep
}

func compare(r *pbt.R, data []byte) report {
	var got report
	stepfile.Scratch(data, func(name string) {
		table := step.VerifLex(name)
		got = read(stepfile.Capture(func() { step.Parse(table) }))
	})
	defs := stepfile.Read(string(data))
	want := expect(defs)
	if strings.Join(got.splines, "\n") != strings.Join(want.splines, "\n") {
		r.Failf("reported surfaces\n%s\nwant\n%s", strings.Join(got.splines, "\n"), strings.Join(want.splines, "\n"))
	}
	if strings.Join(got.radii, " ") != strings.Join(want.radii, " ") {
		r.Failf("reported radii %q, want %q", got.radii, want.radii)
	}
	if got.rounds != want.rounds || got.faces != want.faces || got.spheric != want.spheric {
		r.Failf("%d spheres and tori, %d faces, %d of them spherical; want %d, %d, %d", got.rounds, got.faces, got.spheric, want.rounds, want.faces, want.spheric)
	}
	if strings.Join(got.surfaces, "\n") != strings.Join(want.surfaces, "\n") {
		r.Failf("faces on surfaces of types %q, want %q", got.surfaces, want.surfaces)
	}
	for _, m := range []map[string]int{got.skipped, want.skipped} {
		for typ := range m {
			if got.skipped[typ] != want.skipped[typ] {
				r.Failf("%q is reported as skipped %d times, want %d", typ, got.skipped[typ], want.skipped[typ])
			}
		}
	}
	return want
}

type Case struct {
	E    []stepfile.Entity
	L    stepfile.Layout
	File string
	// Tiles above 1 repeats the instances under other numbers; a reference
	// to nothing leads into the next tile where Chain says so.
	Tiles int
	Chain bool
}

// tiled repeats the instances.
func tiled(c Case) (out []stepfile.Entity) {
	for k := 0; k < c.Tiles; k++ {
		var shift func(a stepfile.Arg) stepfile.Arg
		shift = func(a stepfile.Arg) stepfile.Arg {
			if a.K == "atom" && strings.HasPrefix(a.S, "#") {
				n, _ := strconv.Atoi(a.S[1:])
				switch {
				case n != 77:
					a.S = fmt.Sprintf("#%d", n+1000*k)
				case c.Chain:
					a.S = fmt.Sprintf("#%d", c.E[0].ID+1000*(k+1))
				}
			}
			list := make([]stepfile.Arg, len(a.L))
			for i := range a.L {
				list[i] = shift(a.L[i])
			}
			if a.L != nil {
				a.L = list
			}
			return a
		}
		for _, e := range c.E {
			args := make([]stepfile.Arg, len(e.Args))
			for i := range e.Args {
				args[i] = shift(e.Args[i])
			}
			e.ID += 1000 * k
			e.Args = args
			out = append(out, e)
		}
	}
	return out
}

func check(c Case, r *pbt.R) {
	var data []byte
	if c.File != "" {
		for _, f := range stepfile.RepoFiles() {
			if filepath.Base(f) == c.File {
				data, _ = os.ReadFile(f)
			}
		}
		r.Label("sample file")
		if strings.Contains(c.File, "undefined") { // defines an identifier twice
			return
		}
	} else {
		e := c.E
		if c.Tiles > 1 {
			e = tiled(c)
			r.Label("large file")
		}
		data = stepfile.Render(e, c.L)
	}
	want := compare(r, data)
	r.NonTrivialIf(len(want.splines)+want.rounds+want.faces > 0)
	if len(want.splines) > 0 {
		r.Label("B-spline surface")
	}
	if want.spheric > 0 {
		r.Label("face on a sphere")
	}
}

func atom(s string) stepfile.Arg { return stepfile.Arg{K: "atom", S: s} }

func leaves(l []stepfile.Arg) int {
	n := len(l)
	for _, a := range l {
		n += leaves(a.L)
	}
	return n
}

func draw(t *rapid.T) Case {
	c := Case{L: stepfile.DrawLayout(t)}
	c.L.Latin1 = false
	n := rapid.IntRange(1, 9).Draw(t, "n")
	all := []int{1, 2, 3, 4, 5, 6, 7, 8, 9}
	if rapid.IntRange(0, 60).Draw(t, "crowd") == 60 {
		n = rapid.IntRange(20, 120).Draw(t, "crowded")
		for k := 10; k < 200; k++ {
			all = append(all, k)
		}
	}
	ids := rapid.Permutation(all).Draw(t, "ids")[:n]
	if rapid.IntRange(0, 15).Draw(t, "long numbers") == 15 {
		ids = append([]int(nil), ids...)
		for i := range ids {
			ids[i] += 1 << 40
		}
	}
	ref := func() stepfile.Arg {
		return atom(fmt.Sprintf("#%d", rapid.SampledFrom(append(append([]int{}, ids...), ids[0], 77)).Draw(t, "ref")))
	}
	name := func() stepfile.Arg { return stepfile.Arg{K: "str", S: stepfile.DrawString(t)} }
	num := func() stepfile.Arg {
		if rapid.IntRange(0, 3).Draw(t, "any number") == 3 {
			return atom(rapid.StringMatching(`[+-]?[0-9]{1,9}(\.[0-9]{0,9}(E[+-]?[0-9]{1,3})?)?`).Draw(t, "num"))
		}
		return atom(rapid.SampledFrom([]string{"0.", "1.", "5.", "25.00000000000000711", "-3.5", "1.E-07", "2", "12"}).Draw(t, "num"))
	}
	nums := func(gen func() stepfile.Arg) stepfile.Arg {
		l := stepfile.Arg{K: "list"}
		k := rapid.IntRange(1, 5).Draw(t, "len")
		if rapid.IntRange(0, 150).Draw(t, "long list") == 150 {
			k = rapid.IntRange(20, 300).Draw(t, "len")
		}
		for ; k > 0; k-- {
			l.L = append(l.L, gen())
		}
		return l
	}
	logical := func() stepfile.Arg {
		return atom(rapid.SampledFrom([]string{".T.", ".F.", ".U.", ".T."}).Draw(t, "logical"))
	}
	for _, id := range ids {
		e := stepfile.Entity{ID: id, Type: rapid.SampledFrom([]string{"B_SPLINE_SURFACE_WITH_KNOTS", "SPHERICAL_SURFACE", "ADVANCED_FACE", "TOROIDAL_SURFACE", "AXIS2_PLACEMENT_3D",
			"CARTESIAN_POINT", "PRODUCT_DEFINITION", "PRODUCT_DEFINITION_SHAPE", "DIRECTION", "CLOSED_SHELL", "PLANE", "VERTEX_POINT", "FACE_BOUND", "PRODUCT_DEFINITION_FORMATION", "SPHERICAL_SURFACE",
			"VERTEX_LOOP", "FACE", "PRODUCT_DEFINITION_CONTEXT", "other"}).Draw(t, "type")}
		if e.Type == "other" { // unsupported, also with names close to the supported ones
			e.Type = rapid.SampledFrom([]string{"LINE", "EDGE_CURVE", "CYLINDRICAL_SURFACE", "B_SPLINE_SURFACE", "B_SPLINE_CURVE_WITH_KNOTS", "RATIONAL_B_SPLINE_SURFACE", "FACE_SURFACE", "ADVANCED_FACE_2",
				"SURFACE", "DEGENERATE_TOROIDAL_SURFACE", "AXIS1_PLACEMENT", "AXIS2_PLACEMENT_2D", "OPEN_SHELL", "PRODUCT", "A", "Z9_", "MANIFOLD_SOLID_BREP", "USER_DEFINED_1"}).Draw(t, "other type")
		}
		switch e.Type {
		case "B_SPLINE_SURFACE_WITH_KNOTS":
			grid := stepfile.Arg{K: "list"}
			cols, rows := rapid.IntRange(1, 4).Draw(t, "cols"), rapid.IntRange(1, 4).Draw(t, "rows")
			if rapid.IntRange(0, 60).Draw(t, "fine") == 60 {
				cols, rows = rapid.IntRange(5, 40).Draw(t, "many cols"), rapid.IntRange(5, 40).Draw(t, "many rows")
				switch rapid.IntRange(0, 11).Draw(t, "long") {
				case 10:
					cols, rows = rapid.IntRange(200, 1200).Draw(t, "very many cols"), rapid.IntRange(1, 3).Draw(t, "rows")
				case 11:
					cols, rows = rapid.IntRange(1, 3).Draw(t, "cols"), rapid.IntRange(200, 1200).Draw(t, "very many rows")
				}
			}
			for k := rows; k > 0; k-- {
				row := stepfile.Arg{K: "list"}
				for j := 0; j < cols; j++ {
					row.L = append(row.L, ref())
				}
				grid.L = append(grid.L, row)
			}
			e.Args = []stepfile.Arg{name(), num(), num(), grid, atom(rapid.SampledFrom([]string{".UNSPECIFIED.", ".PLANE_SURF.", ".SPHERICAL_SURF.", ".CYLINDRICAL_SURF.", ".CONICAL_SURF.", ".TOROIDAL_SURF.", ".SURF_OF_REVOLUTION.", ".RULED_SURF.", ".GENERALISED_CONE.", ".QUADRIC_SURF.", ".SURF_OF_LINEAR_EXTRUSION.", "$", ".U."}).Draw(t, "form")),
				logical(), logical(), logical(), nums(num), nums(num), nums(num), nums(num), atom(".UNSPECIFIED.")}
		case "SPHERICAL_SURFACE":
			e.Args = []stepfile.Arg{name(), ref(), num()}
		case "TOROIDAL_SURFACE":
			e.Args = []stepfile.Arg{name(), ref(), num(), num()}
		case "ADVANCED_FACE":
			e.Args = []stepfile.Arg{name(), nums(ref), ref(), logical()}
		case "AXIS2_PLACEMENT_3D":
			e.Args = []stepfile.Arg{name(), ref(), ref(), ref()}
		case "CARTESIAN_POINT", "DIRECTION":
			e.Args = []stepfile.Arg{name(), {K: "list", L: []stepfile.Arg{num(), num(), num()}}}
		case "PRODUCT_DEFINITION":
			e.Args = []stepfile.Arg{name(), name(), ref(), ref()}
		case "PRODUCT_DEFINITION_SHAPE", "PRODUCT_DEFINITION_FORMATION":
			e.Args = []stepfile.Arg{name(), name(), ref()}
		case "CLOSED_SHELL":
			e.Args = []stepfile.Arg{name(), nums(ref)}
		default:
			e.Args = []stepfile.Arg{name(), ref()}
		}
		c.E = append(c.E, e)
	}
	return c
}

func main() {
	files := []string{"none"}
	for _, f := range stepfile.RepoFiles() {
		files = append(files, filepath.Base(f))
	}
	pbt.Main(pbt.Spec{
		ID:          "C26",
		Rule:        "files of 1..9 (some up to 120, a part of them repeated up to 1500..5000) instances of all supported types and others, referring to each other, to themselves, in cycles and to nothing, in any layout and order, and the repository's sample files; oracle: the report computed from an independent reader: attributes of every B-spline surface, radii of every sphere, the faces' surface types, and skipped types, each exactly once. Non-trivial: a surface or a face.",
		Assumptions: []string{"the report is what is printed on the standard output; instance numbers are unique"},
		Parts: []pbt.Part{
			pbt.P("reports", 72000, 600000, draw, check),
			pbt.P("many", 60, 900, func(t *rapid.T) Case {
				c := draw(t)
				c.Tiles = rapid.IntRange(1500, 5000).Draw(t, "instances")/len(c.E) + 1
				size := 0
				for _, e := range c.E {
					size += leaves(e.Args)
				}
				c.Tiles = min(c.Tiles, 400000/(size+1)+1)
				c.Chain = rapid.Bool().Draw(t, "chain")
				return c
			}, check),
			pbt.P("samples", 600, 2000, func(t *rapid.T) Case {
				return Case{File: rapid.SampledFrom(files).Draw(t, "file")}
			}, check),
		},
	})
}
