// C38: tables written as JSON read back the same; emitted symbols arrive once, in order.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"time"

	"geGoMetry/step"
	"verif/pbt"
	"verif/stepfile"

	"pgregory.net/rapid"
)

// Doc is a value to write.
type Doc struct {
	Table   step.SymbolTable
	Kind    int // 0 the table, 1 one definition, 2 the argument lists, 3 a string, 4 a number
	Older   int // size of a file already there
	Fault   int // 1 no directory, 2 a directory in place of the file, 3 a device without room
	Number  float64
	Content string
}

const target = "testfiles/out/test.json"

func checkDoc(c Doc, r *pbt.R) {
	dir, err := os.MkdirTemp("", "json")
	if err != nil {
		panic(err)
	}
	old, err := os.Getwd()
	if err == nil {
		err = os.Chdir(dir)
	}
	if err != nil {
		panic(err)
	}
	defer func() { os.Chdir(old); os.RemoveAll(dir) }()
	if c.Fault != 1 {
		os.MkdirAll(filepath.Dir(target), 0o755)
	}
	if c.Fault == 2 {
		os.Mkdir(target, 0o755)
	}
	if c.Fault == 3 {
		if info, err := os.Stat("/dev/full"); err != nil || info.Mode()&os.ModeCharDevice == 0 {
			r.Label("no device without room here")
			return
		}
		if err := os.Symlink("/dev/full", target); err != nil {
			panic(err)
		}
	}
	if c.Fault == 0 && c.Older > 0 {
		if err := os.WriteFile(target, make([]byte, c.Older), 0o644); err != nil {
			panic(err)
		}
		r.Label("over an older file")
	}
	var item, back any
	switch c.Kind {
	case 0:
		item, back = c.Table, &step.SymbolTable{}
	case 1:
		var d step.Definition
		for _, x := range c.Table {
			d = x
		}
		item, back = d, &step.Definition{}
	case 2:
		m := map[string][]string{}
		for k, x := range c.Table {
			m[k] = x.Arguments
		}
		item, back = m, &map[string][]string{}
	case 3:
		item, back = c.Content, new(string)
	default:
		item, back = c.Number, new(float64)
	}
	if c.Fault > 0 {
		r.NonTrivial()
		r.Label("unwritable")
		if _, panicked := pbt.Try(func() { step.VerifJSON(item) }); !panicked {
			if info, err := os.Lstat(target); c.Fault == 3 && err == nil && info.Mode().IsRegular() {
				return // written in the place of the link
			}
			r.Failf("an unwritable destination went unnoticed")
		}
		return
	}
	step.VerifJSON(item)
	b, err := os.ReadFile(target)
	if err != nil {
		r.Failf("nothing was written: %v", err)
	}
	if err := json.Unmarshal(b, back); err != nil {
		r.Failf("%d bytes written for %v are not JSON: %v", len(b), item, err)
	}
	got := reflect.ValueOf(back).Elem().Interface()
	if !reflect.DeepEqual(got, item) {
		r.Failf("%v reads back as %v", item, got)
	}
	r.NonTrivialIf(c.Kind > 2 || len(c.Table) > 1)
}

// Stream is some emitted symbols and what the receiving side does in between.
type Stream struct {
	Symbols int
	Emitter int   // goroutines that emit
	Pauses  []int // before each receipt: 0 nothing, 1 yield, 2 sleep
	Kinds   []int // of a single emitter's symbols: 0 plain, 1 no definition, 2 nothing at all, 3 no number, 4 no arguments, 5 as the one before
}

func checkStream(c Stream, r *pbt.R) {
	l, other := step.VerifLexer("unused"), step.VerifLexer("unused")
	var want func(e, i int) step.Symbol
	want = func(e, i int) step.Symbol {
		kind := 0
		if c.Emitter == 1 && len(c.Kinds) > 0 {
			kind = c.Kinds[i%len(c.Kinds)]
		}
		switch kind {
		case 1:
			return step.Symbol{ID: fmt.Sprintf("#%d", i)}
		case 2:
			return step.Symbol{}
		case 3:
			return step.Symbol{Def: step.Definition{Type: "T0"}}
		case 4:
			return step.Symbol{ID: fmt.Sprintf("#%d", i), Def: step.Definition{Type: "T0", Arguments: []string{}}}
		case 5:
			for i > 0 && c.Kinds[i%len(c.Kinds)] == 5 {
				i--
			}
			if c.Kinds[i%len(c.Kinds)] != 5 {
				return want(e, i)
			}
		}
		return step.Symbol{ID: fmt.Sprintf("#%d", i), Def: step.Definition{Type: fmt.Sprint("T", e), Arguments: []string{fmt.Sprint(i), "x"}}}
	}
	for e := 0; e < c.Emitter; e++ {
		go func() {
			for i := 0; i < c.Symbols; i++ {
				step.VerifEmit(&l, want(e, i))
			}
		}()
	}
	next := make([]int, c.Emitter)
	for n := 0; n < c.Symbols*c.Emitter; n++ {
		if len(c.Pauses) > 0 && n < 200 {
			switch c.Pauses[n%len(c.Pauses)] {
			case 1:
				runtime.Gosched()
			case 2:
				time.Sleep(20 * time.Microsecond)
			}
		}
		wait := 0
	again:
		select {
		case s := <-l.SymbolsChan:
			var e int
			fmt.Sscanf(s.Def.Type, "T%d", &e)
			if c.Emitter == 1 {
				e = 0
			}
			if e >= c.Emitter || !reflect.DeepEqual(s, want(e, next[e])) {
				r.Failf("received %v as number %d of emitter %d", s, next[e], e)
			}
			next[e]++
		case <-time.After(5 * time.Second):
			if wait++; wait < 5 { // the process may have been stopped in between
				goto again
			}
			r.Failf("only %d of %d symbols arrived", n, c.Symbols*c.Emitter)
		}
	}
	runtime.Gosched()
	select {
	case s := <-l.SymbolsChan:
		r.Failf("%v arrived after all symbols", s)
	case s := <-other.SymbolsChan:
		r.Failf("%v arrived at another lexer", s)
	default:
	}
	r.NonTrivialIf(c.Symbols > 2)
	r.Label("%d emitters", c.Emitter)
}

// Logical is the text of a logical value.
type Logical struct{ S string }

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C38",
		Rule:        "tables of up to 8 definitions (and single definitions, lists, strings and numbers) written over nothing, over older shorter and longer files, and to unwritable places, a full device among them; streams of up to 60 (some up to 3000) symbols (also without type, number or arguments, also repeated) from one to three emitters to a receiver that pauses; texts of logical values; oracle: JSON decoding, the emitted sequence, .T. alone is true. Non-trivial: two definitions or more, three symbols or more, a fault.",
		Assumptions: []string{"strings are valid UTF-8, as JSON requires; values JSON cannot express are left open"},
		Parts: []pbt.Part{
			pbt.P("json", 8000, 400000, func(t *rapid.T) Doc {
				c := Doc{Table: step.SymbolTable{}, Kind: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(t, "kind")}
				for _, e := range stepfile.DrawEntities(t, 8) {
					d := step.Definition{Type: e.Type}
					for _, a := range e.Args {
						d.Arguments = append(d.Arguments, a.Tight())
					}
					c.Table[fmt.Sprintf("#%d", e.ID)] = d
				}
				c.Content = stepfile.DrawString(t)
				c.Number = rapid.Float64().Draw(t, "number")
				c.Older = rapid.SampledFrom([]int{0, 0, 1, 300, 100000}).Draw(t, "older")
				c.Fault = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2, 3}).Draw(t, "fault")
				return c
			}, checkDoc),
			pbt.P("stream", 8000, 300000, func(t *rapid.T) Stream {
				n := rapid.IntRange(0, 60).Draw(t, "symbols")
				if rapid.IntRange(0, 60).Draw(t, "long") == 60 {
					n = rapid.IntRange(500, 3000).Draw(t, "many")
				}
				return Stream{n, rapid.IntRange(1, 3).Draw(t, "emitters"), rapid.SliceOfN(rapid.IntRange(0, 2), 0, 8).Draw(t, "pauses"), rapid.SliceOfN(rapid.IntRange(0, 5), 0, 6).Draw(t, "kinds")}
			}, checkStream),
			pbt.P("logical", 20000, 100000, func(t *rapid.T) Logical {
				return Logical{rapid.OneOf(rapid.SampledFrom([]string{".T.", ".F.", ".U.", "T", ".T", "", "$", "*", ".TRUE.", ".t.", "'.T.'"}), rapid.StringMatching(`\.?[A-Z$*#0-9]{0,5}\.?`)).Draw(t, "text")}
			}, func(c Logical, r *pbt.R) {
				r.NonTrivialIf(c.S == ".T." || c.S == ".F.")
				if got := step.VerifLogical(c.S); got != (c.S == ".T.") {
					r.Failf("the logical %q is read as %v", c.S, got)
				}
			}),
		},
	})
}
