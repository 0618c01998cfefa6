// C25: reading and parsing never fails on damaged input.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"geGoMetry/step"
	"verif/pbt"
	"verif/stepfile"

	"pgregory.net/rapid"
)

type Def struct {
	ID   string
	Type string
	Args []string
}

type Table struct{ D []Def }

func checkTable(c Table, r *pbt.R) {
	table := step.SymbolTable{}
	for _, d := range c.D {
		table[d.ID] = step.Definition{Type: d.Type, Arguments: append([]string(nil), d.Args...)}
	}
	refs := 0
	for _, d := range c.D {
		for _, a := range d.Args {
			if _, ok := table[a]; ok {
				refs++
			} else if len(a) > 1 && a[0] == '#' {
				r.Label("dangling reference")
			}
		}
	}
	r.NonTrivialIf(refs > 0)
	if refs > len(c.D) {
		r.Label("cyclic")
	}
	step.Parse(table)
	for _, d := range c.D {
		got := table[d.ID]
		for _, e := range c.D {
			if e.ID == d.ID {
				d = e // the last definition of an identifier is in the table
			}
		}
		if got.Type != d.Type || fmt.Sprint(got.Arguments) != fmt.Sprint(append([]string(nil), d.Args...)) {
			r.Failf("parsing changed %s to %q", d.ID, got)
		}
	}
}

// Damage is a file with some edits: at a place (in thousandths), delete some bytes and insert others.
type Edit struct {
	At     int
	Delete int
	Insert string
}

type Damage struct {
	E     []stepfile.Entity
	L     stepfile.Layout
	File  string // or a sample file
	Raw   []byte // or these bytes
	Kind  string
	Edits []Edit
}

func checkDamage(c Damage, r *pbt.R) {
	var data []byte
	switch c.Kind {
	case "raw":
		data = append(data, c.Raw...)
	case "sample":
		for _, f := range stepfile.RepoFiles() {
			if filepath.Base(f) == c.File {
				data, _ = os.ReadFile(f)
			}
		}
	default:
		data = stepfile.Render(c.E, c.L)
	}
	r.Label("%s", c.Kind)
	for _, e := range c.Edits {
		at := e.At * len(data) / 1000
		end := at + e.Delete
		if end > len(data) {
			end = len(data)
		}
		data = append(append(append([]byte(nil), data[:at]...), e.Insert...), data[end:]...)
	}
	var table step.SymbolTable
	stepfile.Scratch(data, func(name string) { table = step.VerifLex(name) })
	if table == nil {
		r.Failf("no table")
	}
	r.NonTrivialIf(len(table) > 1)
	step.Parse(table)
}

type Missing struct{ Kind string }

func checkMissing(c Missing, r *pbt.R) {
	r.NonTrivial()
	dir, err := os.MkdirTemp("", "verif-c25-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := map[string]string{"missing": filepath.Join(dir, "x.step"), "directory": dir, "below a file": filepath.Join(dir, "f", "x.step"), "no name": ""}[c.Kind]
	os.WriteFile(filepath.Join(dir, "f"), []byte("#1=A();"), 0o644)
	if _, panicked := pbt.Try(func() { step.VerifLex(name) }); !panicked {
		r.Failf("reading %s went unnoticed", c.Kind)
	}
}

var types = []string{"AXIS2_PLACEMENT_3D", "ADVANCED_FACE", "PRODUCT_DEFINITION", "PRODUCT_DEFINITION_SHAPE", "PRODUCT_DEFINITION_FORMATION", "PRODUCT_DEFINITION_CONTEXT",
	"SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "B_SPLINE_SURFACE_WITH_KNOTS", "CARTESIAN_POINT", "VERTEX_POINT", "VERTEX_LOOP", "FACE", "CLOSED_SHELL", "DIRECTION",
	"MANIFOLD_SOLID_BREP", "", "UNKNOWN", "AXIS_2_PLACEMENT_3D"}

func drawTable(t *rapid.T) Table {
	c := Table{}
	n := rapid.IntRange(0, 10).Draw(t, "n")
	for i := 0; i < n; i++ {
		d := Def{ID: fmt.Sprintf("#%d", i+1), Type: rapid.SampledFrom(types).Draw(t, "type"), Args: []string{}}
		k := rapid.IntRange(0, 6).Draw(t, "args")
		if rapid.IntRange(0, 3).Draw(t, "many") == 3 {
			k = 13
		}
		for j := 0; j < k; j++ {
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
				d.Args = append(d.Args, rapid.SampledFrom([]string{"", "$", "*", "'", "''", "(", ")", "()", "((", "))", "(()", "(,)", "('", ")(", "(a,(b,c)", "#", "#0", ".T.", "'name'", " ", "((#1,#2),(#3))", "((1.),2.)", "é"}).Draw(t, "arg"))
			case 1:
				d.Args = append(d.Args, stepfile.DrawArg(t, 2).Tight())
			case 2:
				d.Args = append(d.Args, fmt.Sprintf("#%d", rapid.IntRange(0, 30).Draw(t, "far")))
			default:
				d.Args = append(d.Args, fmt.Sprintf("#%d", rapid.IntRange(1, n).Draw(t, "ref")))
			}
		}
		c.D = append(c.D, d)
	}
	return c
}

func main() {
	files := []string{"none"}
	for _, f := range stepfile.RepoFiles() {
		files = append(files, filepath.Base(f))
	}
	pbt.Main(pbt.Spec{
		ID:          "C25",
		Rule:        "symbol tables of 0..10 definitions of every supported type and others with too few, too many and malformed arguments, references that are missing, cyclic, to itself and to any type; files, the sample files and raw bytes with insertions and deletions, read and parsed; unreadable files. Oracle: returns without a panic, leaving the table as it was, except that an unreadable file must be reported. Non-trivial: a resolved reference; two instances or more.",
		Assumptions: []string{"files of at most some ten thousand bytes"},
		Parts: []pbt.Part{
			pbt.P("tables", 320000, 1500000, drawTable, checkTable),
			pbt.P("damaged", 128000, 500000, func(t *rapid.T) Damage {
				c := Damage{Kind: rapid.SampledFrom([]string{"model", "sample", "model", "raw"}).Draw(t, "kind")}
				switch c.Kind {
				case "raw":
					c.Raw = rapid.SliceOfN(rapid.SampledFrom([]byte("#1=A(';), \n/*\xe9")), 0, 60).Draw(t, "raw")
				case "sample":
					c.File = rapid.SampledFrom(files).Draw(t, "file")
				default:
					c.E, c.L = stepfile.DrawEntities(t, 6), stepfile.DrawLayout(t)
				}
				for k := rapid.IntRange(0, 4).Draw(t, "edits"); k > 0; k-- {
					c.Edits = append(c.Edits, Edit{rapid.IntRange(0, 1000).Draw(t, "at"), rapid.SampledFrom([]int{0, 1, 2, 5, 40, 3000}).Draw(t, "delete"),
						rapid.SampledFrom([]string{"", "'", "(", ")", ";", "=", "#", ",", "\n", "/*", "*/", "#7", "\x00", "\xff", " = ", "#1=(", "#9"}).Draw(t, "insert")})
				}
				return c
			}, checkDamage),
			pbt.P("unreadable", 40, 400, func(t *rapid.T) Missing {
				return Missing{rapid.SampledFrom([]string{"missing", "directory", "below a file", "no name"}).Draw(t, "kind")}
			}, checkMissing),
		},
	})
}
