// C23: layout and order of a STEP file do not matter.
package main

import (
	"os"
	"path/filepath"
	"strings"

	"geGoMetry/step"
	"verif/pbt"
	"verif/stepfile"

	"pgregory.net/rapid"
)

type Case struct {
	E    []stepfile.Entity
	A, B stepfile.Layout
	Perm []int
}

func lex(data []byte) (table step.SymbolTable) {
	stepfile.Scratch(data, func(name string) { table = step.VerifLex(name) })
	return
}

func compare(r *pbt.R, a, b step.SymbolTable) {
	for id, x := range a {
		y, ok := b[id]
		if !ok {
			r.Failf("%s is found in one layout only", id)
		}
		if x.Type != y.Type || len(x.Arguments) != len(y.Arguments) {
			r.Failf("%s is %q in one layout, %q in the other", id, x, y)
		}
		for i := range x.Arguments {
			if !stepfile.Same(x.Arguments[i], y.Arguments[i]) {
				r.Failf("argument %d of %s is %q in one layout, %q in the other", i, id, x.Arguments[i], y.Arguments[i])
			}
			if strings.TrimSpace(x.Arguments[i]) != x.Arguments[i] || strings.TrimSpace(y.Arguments[i]) != y.Arguments[i] {
				r.Failf("argument %d of %s is %q in one layout, %q in the other", i, id, x.Arguments[i], y.Arguments[i])
			}
		}
	}
	if len(a) != len(b) {
		r.Failf("%d instances in one layout, %d in the other", len(a), len(b))
	}
}

func checkLayouts(c Case, r *pbt.R) {
	r.NonTrivialIf(len(c.E) > 1)
	r.Label("%s/%s", c.A.Style, c.B.Style)
	permuted := make([]stepfile.Entity, len(c.E))
	for i, k := range c.Perm {
		permuted[i] = c.E[k]
	}
	c.B.Latin1 = c.A.Latin1
	compare(r, lex(stepfile.Render(c.E, c.A)), lex(stepfile.Render(permuted, c.B)))
}

type FileCase struct {
	File string // base name
	L    stepfile.Layout
}

var seps = []string{"", "\n", " ", "", "\r\n", "\t", "\n  ", "", "/* ; */", "\n\n"}

func checkFile(c FileCase, r *pbt.R) {
	var data []byte
	for _, f := range stepfile.RepoFiles() {
		if filepath.Base(f) == c.File {
			data, _ = os.ReadFile(f)
		}
	}
	if data == nil {
		return
	}
	r.NonTrivial()
	r.Label("%s", c.File)
	var b strings.Builder
	seen := map[string]int{}
	for i, tok := range stepfile.Tokens(string(data)) {
		if i > 0 {
			b.WriteString(seps[c.L.Seps[i%len(c.L.Seps)]%len(seps)])
		}
		b.WriteString(tok)
	}
	toks := stepfile.Tokens(string(data))
	for i := 1; i < len(toks); i++ {
		if toks[i] == "=" && (i == 1 || toks[i-2] == ";") {
			seen[toks[i-1]]++
		}
	}
	own, again := lex(data), lex([]byte(b.String()))
	want := stepfile.Read(string(data))
	for id, n := range seen {
		if n > 1 { // which of the definitions counts is left open
			delete(own, id)
			delete(again, id)
			delete(want, id)
		}
	}
	compare(r, own, again)
	for id, w := range want {
		got, ok := own[id]
		if !ok {
			r.Failf("%s is missing", id)
		}
		if w[0] == "" {
			continue
		}
		if got.Type != w[0] || len(got.Arguments) != len(w)-1 {
			r.Failf("%s is %q, want %q", id, got, w)
		}
		for i := range got.Arguments {
			if !stepfile.Same(got.Arguments[i], w[i+1]) {
				r.Failf("argument %d of %s is %q, want %q", i, id, got.Arguments[i], w[i+1])
			}
		}
	}
	if len(own) != len(want) {
		r.Failf("%d instances, want %d", len(own), len(want))
	}
}

func main() {
	files := []string{}
	for _, f := range stepfile.RepoFiles() {
		files = append(files, filepath.Base(f))
	}
	if len(files) == 0 {
		files = []string{"none"}
	}
	pbt.Main(pbt.Spec{
		ID:          "C23",
		Rule:        "generated instances written in two layouts (tight, spaced, free with breaks, CRLF, blank lines, comments, several per line, with or without header and footer) and two orders, and the repository's own sample files against a copy with other breaks between tokens and against an independent reader; relation: same types and parameters token by token. Non-trivial: two instances or more.",
		Assumptions: []string{"layout changes between tokens only; instance numbers are unique"},
		Parts: []pbt.Part{
			pbt.P("layouts", 48000, 500000, func(t *rapid.T) Case {
				c := Case{E: stepfile.DrawEntities(t, 8), A: stepfile.DrawLayout(t), B: stepfile.DrawLayout(t)}
				n := make([]int, len(c.E))
				for i := range n {
					n[i] = i
				}
				c.Perm = rapid.Permutation(n).Draw(t, "order")
				return c
			}, checkLayouts),
			pbt.P("files", 4500, 40000, func(t *rapid.T) FileCase {
				return FileCase{File: rapid.SampledFrom(files).Draw(t, "file"), L: stepfile.DrawLayout(t)}
			}, checkFile),
		},
	})
}
