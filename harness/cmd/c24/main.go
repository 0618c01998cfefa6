// C24: lists are split into their elements.
package main

import (
	"reflect"
	"slices"
	"strings"

	"geGoMetry/step"
	"verif/pbt"
	"verif/stepfile"

	"pgregory.net/rapid"
)

type Case struct {
	L []stepfile.Arg
	S stepfile.Layout
}

func checkArray(c Case, r *pbt.R) {
	r.NonTrivialIf(len(c.L) > 1)
	list := stepfile.Arg{K: "list", L: c.L}
	text := list.Text(c.S)
	got := step.VerifArray(text)
	if len(got) != len(c.L) {
		r.Failf("%d elements, want %d: %q gave %q", len(got), len(c.L), text, got)
	}
	for i, a := range c.L {
		want := a.Tight()
		if got[i] != strings.TrimSpace(got[i]) || !stepfile.Same(got[i], want) || (a.K == "str" || a.K == "atom") && got[i] != want {
			r.Failf("element %d of %q is %q, want %q", i, text, got[i], want)
		}
		if a.K == "list" {
			r.Label("nested")
			if inner := step.VerifArray(got[i]); len(inner) != len(a.L) {
				r.Failf("%d elements in %q, want %d", len(inner), got[i], len(a.L))
			}
		}
	}
	// Whatever kind the elements are said to be, they are these.
	kind := []reflect.Kind{reflect.Float64, reflect.Int, reflect.Bool, reflect.Array, reflect.Slice, reflect.Invalid}[len(text)%6]
	if other := step.VerifArrayOf(text, kind); !slices.Equal(other, got) {
		r.Failf("%q split as a list of %vs gives %q instead of %q", text, kind, other, got)
	}
	if again := step.VerifArray("(" + strings.Join(got, ",") + ")"); len(again) != len(got) {
		r.Failf("joining and splitting %q again gives %q", got, again)
	}
}

func checkMatrix(c Case, r *pbt.R) {
	r.NonTrivialIf(len(c.L) > 1)
	text := stepfile.Arg{K: "list", L: c.L}.Text(c.S)
	got := step.VerifMatrix(text)
	if len(got) != len(c.L) {
		r.Failf("%d rows, want %d: %q gave %q", len(got), len(c.L), text, got)
	}
	for i, row := range c.L {
		if len(got[i]) != len(row.L) {
			r.Failf("row %d of %q is %q", i, text, got[i])
		}
		for j, a := range row.L {
			if want := a.Tight(); !stepfile.Same(got[i][j], want) || got[i][j] != strings.TrimSpace(got[i][j]) {
				r.Failf("element %d,%d of %q is %q, want %q", i, j, text, got[i][j], want)
			}
		}
	}
}

func plain(t *rapid.T) stepfile.Layout {
	l := stepfile.DrawLayout(t)
	// Comments and line breaks are gone before lists are split.
	if l.Style == "free" {
		l.Style = "spaced"
	}
	return l
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C24",
		Rule:        "lists of 0..5 (some up to 900) parameters of all kinds nested up to four deep, now and then up to 1100, strings holding brackets, commas and quotes, tight or with blanks; matrices of 0..6 (some up to 1500) rows of different lengths; oracle: the model the text was written from, and joining the elements again. Non-trivial: two elements or rows.",
		Assumptions: []string{"text that is a list"},
		Parts: []pbt.Part{
			pbt.P("array", 480000, 3000000, func(t *rapid.T) Case { return Case{stepfile.DrawArgs(t, 4), plain(t)} }, checkArray),
			pbt.P("matrix", 160000, 1000000, func(t *rapid.T) Case {
				c := Case{S: plain(t)}
				rows := rapid.IntRange(0, 6).Draw(t, "rows")
				if rapid.IntRange(0, 60).Draw(t, "tall") == 60 {
					rows = rapid.IntRange(20, 200).Draw(t, "many rows")
					if rapid.IntRange(0, 9).Draw(t, "taller") == 9 {
						rows = rapid.IntRange(200, 1500).Draw(t, "very many rows")
					}
				}
				for i := 0; i < rows; i++ {
					row := stepfile.Arg{K: "list"}
					if rapid.Bool().Draw(t, "plain") {
						for k := rapid.IntRange(1, 6).Draw(t, "columns"); k > 0; k-- {
							row.L = append(row.L, stepfile.DrawAtom(t))
						}
					} else {
						row.L = stepfile.DrawArgs(t, 2)
					}
					c.L = append(c.L, row)
				}
				return c
			}, checkMatrix),
		},
	})
}
