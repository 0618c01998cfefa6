// C22: the symbol table holds exactly the instances of the file.
package main

import (
	"fmt"
	"strings"

	"geGoMetry/step"
	"verif/pbt"
	"verif/stepfile"

	"pgregory.net/rapid"
)

type Case struct {
	E []stepfile.Entity
	L stepfile.Layout
}

func check(c Case, r *pbt.R) {
	r.NonTrivialIf(len(c.E) > 1)
	r.Label("%s", c.L.Style)
	text := stepfile.Render(c.E, c.L)
	var table step.SymbolTable
	stepfile.Scratch(text, func(name string) { table = step.VerifLex(name) })
	for _, e := range c.E {
		id := fmt.Sprintf("#%d", e.ID)
		def, ok := table[id]
		if !ok {
			r.Failf("instance %s is missing", id)
		}
		if e.Complex {
			r.Label("complex instance")
			continue
		}
		if def.Type != e.Type {
			r.Failf("instance %s has type %q, want %q", id, def.Type, e.Type)
		}
		if len(def.Arguments) != len(e.Args) {
			r.Failf("instance %s has %d arguments, want %d: %q", id, len(def.Arguments), len(e.Args), def.Arguments)
		}
		for i, a := range e.Args {
			got, want := def.Arguments[i], c.L.Encode(a.Tight())
			if got != strings.TrimSpace(got) || !stepfile.Same(got, want) || (a.K == "str" || a.K == "atom") && got != want {
				r.Failf("argument %d of instance %s is %q, want %q", i, id, got, want)
			}
			if a.K == "str" {
				r.Label("string")
			}
		}
	}
	if len(table) != len(c.E) {
		keys := []string{}
		for k := range table {
			keys = append(keys, k)
		}
		r.Failf("%d entries for %d instances: %q", len(table), len(c.E), keys)
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C22",
		Rule:        "files of 0..8 (some up to 300, in a part of their own 2500) instances with parameters of all kinds nested up to three deep, now and then up to 1100 (strings holding quotes, brackets, commas, semicolons, equal signs, comment marks, non-ASCII text, texts and lists beyond 4096 bytes), complex instances, with and without header and footer, in tight, spaced and free layouts with breaks, CRLF and comments, in UTF-8 or Latin-1; oracle: the model the file was written from. Non-trivial: two instances or more.",
		Assumptions: []string{"instance numbers are unique; the content of complex instances is left open"},
		Parts: []pbt.Part{pbt.P("file", 120000, 800000, func(t *rapid.T) Case {
			return Case{stepfile.DrawEntities(t, 8), stepfile.DrawLayout(t)}
		}, check), pbt.P("many", 40, 600, func(t *rapid.T) Case {
			return Case{stepfile.DrawMany(t, 500, 2500), stepfile.DrawLayout(t)}
		}, check)},
	})
}
