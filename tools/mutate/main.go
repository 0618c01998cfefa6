// mutate FILE: prints one JSON line per mutant of a Go file: {"line","what","off","end","text"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

var swaps = map[token.Token][]string{
	token.ADD: {"-", "*"}, token.SUB: {"+"}, token.MUL: {"+", "/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<=", ">", "!="}, token.LEQ: {"<", ">", "=="}, token.GTR: {">=", "<", "!="}, token.GEQ: {">", "<", "=="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
}
var asg = map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	enc := json.NewEncoder(os.Stdout)
	emit := func(a, b int, text string) {
		line := 1 + strings.Count(string(src[:a]), "\n")
		old := string(src[a:b])
		if len(old) > 60 {
			old = old[:60] + "..."
		}
		t := text
		if len(t) > 60 {
			t = t[:60] + "..."
		}
		enc.Encode(map[string]any{"line": line, "what": fmt.Sprintf("%s -> %s", old, t), "off": a, "end": b, "text": text})
	}
	rep := func(n ast.Node, text string) { emit(off(n.Pos()), off(n.End()), text) }
	used := func(n ast.Node) string { // keeps variables used
		ids := map[string]bool{}
		_ = ids
		return ""
	}
	_ = used
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				emit(off(x.OpPos), off(x.OpPos)+len(x.Op.String()), s)
			}
			if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL || x.Op == token.QUO {
				rep(x, "("+txt(x.X)+")")
				if x.Op != token.SUB {
					rep(x, "("+txt(x.Y)+")")
				}
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				rep(x, "("+txt(x.X)+")")
				rep(x, "("+txt(x.Y)+")")
			}
			if x.Op == token.SUB && txt(x.X) != txt(x.Y) {
				rep(x, "("+txt(x.Y)+" - ("+txt(x.X)+"))")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				rep(x, x.Value+"+1")
				rep(x, x.Value+"-1")
			case token.FLOAT:
				rep(x, x.Value+"*2")
				rep(x, x.Value+"+1")
				rep(x, x.Value+"*1.001")
			case token.STRING:
				rep(x, `""`)
				rep(x, x.Value+`+"x"`)
			}
		case *ast.UnaryExpr:
			if x.Op == token.SUB || x.Op == token.NOT {
				rep(x, txt(x.X))
			}
		case *ast.IfStmt:
			rep(x.Cond, "!("+txt(x.Cond)+")")
			rep(x.Cond, "("+txt(x.Cond)+") && len(\"a\") == 2")
			rep(x.Cond, "("+txt(x.Cond)+") || len(\"a\") == 1")
		case *ast.ForStmt:
			if x.Cond != nil {
				rep(x.Cond, "("+txt(x.Cond)+") && len(\"a\") == 2")
			}
		case *ast.IncDecStmt:
			if x.Tok == token.INC {
				rep(x, txt(x.X)+"--")
				rep(x, txt(x.X)+"+=2")
			} else {
				rep(x, txt(x.X)+"++")
				rep(x, txt(x.X)+"-=2")
			}
			rep(x, "")
		case *ast.AssignStmt:
			if s, ok := asg[x.Tok]; ok {
				emit(off(x.TokPos), off(x.TokPos)+2, s)
				emit(off(x.TokPos), off(x.TokPos)+2, "=")
			}
			if x.Tok == token.ASSIGN && len(x.Lhs) == 1 {
				rep(x, "_ = "+txt(x.Rhs[0]))
			}
			if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
				rep(x, "_ = "+txt(x.Rhs[0]))
			}
		case *ast.ExprStmt:
			rep(x, "")
		case *ast.DeferStmt:
			rep(x, "")
		case *ast.BranchStmt:
			if x.Tok == token.BREAK {
				rep(x, "continue")
			}
			if x.Tok == token.CONTINUE {
				rep(x, "break")
			}
			rep(x, "")
		case *ast.SelectorExpr:
			s := x.Sel.Name
			for _, g := range []string{"XYZ", "abc"} {
				if len(s) == 1 && strings.Contains(g, s) {
					k := strings.Index(g, s)
					rep(x.Sel, string(g[(k+1)%3]))
					rep(x.Sel, string(g[(k+2)%3]))
				}
			}
			for _, p := range [][2]string{{"min", "max"}, {"prev", "next"}, {"Min", "Max"}, {"Sin", "Cos"}, {"Add", "Sub"}, {"HasPrefix", "HasSuffix"}} {
				if s == p[0] {
					rep(x.Sel, p[1])
				}
				if s == p[1] {
					rep(x.Sel, p[0])
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				if txt(x.Args[i]) != txt(x.Args[i+1]) {
					emit(off(x.Args[i].Pos()), off(x.Args[i+1].End()), txt(x.Args[i+1])+", "+txt(x.Args[i]))
				}
			}
			if len(x.Args) == 1 {
				rep(x, txt(x.Args[0]))
			}
		case *ast.CompositeLit:
			for i := 0; i+1 < len(x.Elts); i++ {
				a, b := x.Elts[i], x.Elts[i+1]
				if ka, ok := a.(*ast.KeyValueExpr); ok {
					if kb, ok := b.(*ast.KeyValueExpr); ok && txt(ka.Value) != txt(kb.Value) {
						rep(&pair{ka.Value.Pos(), kb.Value.End()}, txt(kb.Value)+", "+txt(kb.Key)+": "+txt(ka.Value))
					}
					continue
				}
				if txt(a) != txt(b) {
					emit(off(a.Pos()), off(b.End()), txt(b)+", "+txt(a))
				}
			}
		case *ast.CaseClause:
			if len(x.Body) > 0 {
				emit(off(x.Body[0].Pos()), off(x.Body[len(x.Body)-1].End()), "")
			}
		case *ast.IndexExpr:
			rep(x.Index, "("+txt(x.Index)+")+1")
			rep(x.Index, "("+txt(x.Index)+")-1")
		case *ast.ReturnStmt:
			if len(x.Results) == 2 {
				rep(x, "return "+txt(x.Results[1])+", "+txt(x.Results[0]))
			}
			if len(x.Results) == 1 && (txt(x.Results[0]) == "true" || txt(x.Results[0]) == "false") {
				rep(x.Results[0], "!"+txt(x.Results[0]))
			}
		}
		return true
	})
}

type pair struct{ a, b token.Pos }

func (p *pair) Pos() token.Pos { return p.a }
func (p *pair) End() token.Pos { return p.b }
