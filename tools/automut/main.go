// automut DIR FILE : lists small changes of FILE (offset, length, replacement), one JSON object a line.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	At   int    `json:"at"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Old  string `json:"old"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
}

func main() {
	path := os.Args[1]
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	emit := func(kind string, a, b token.Pos, s string) {
		enc.Encode(mut{path, off(a), off(b) - off(a), s, string(src[off(a):off(b)]), fs.Position(a).Line, kind})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
	}
	post := map[ast.Stmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, s := range swap[x.Op] {
				emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit("drop", x.Pos(), x.End(), "("+text(x.X)+")")
				emit("drop", x.Pos(), x.End(), "("+text(x.Y)+")")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				emit("const", x.Pos(), x.End(), "("+x.Value+"+1)")
				if x.Value != "0" {
					emit("const", x.Pos(), x.End(), "("+x.Value+"-1)")
				} else {
					emit("const", x.Pos(), x.End(), "(-1)")
				}
			}
			if x.Kind == token.FLOAT {
				emit("const", x.Pos(), x.End(), "("+x.Value+"*1.5)")
			}
		case *ast.IfStmt:
			emit("cond", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
			emit("cond", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
		case *ast.UnaryExpr:
			if x.Op == token.SUB || x.Op == token.NOT {
				emit("unary", x.OpPos, x.OpPos+1, "")
			}
		case *ast.ExprStmt:
			emit("del", x.Pos(), x.End(), "")
		case *ast.ForStmt:
			if x.Post != nil {
				post[x.Post] = true
			}
		case *ast.IncDecStmt:
			if post[x] {
				return true // never ends
			}
			emit("del", x.Pos(), x.End(), "")
		case *ast.DeferStmt:
			emit("del", x.Pos(), x.End(), "")
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
				emit("del", x.Pos(), x.End(), "_ = "+text(x.Rhs[0]))
			}
			switch x.Tok {
			case token.ADD_ASSIGN, token.SUB_ASSIGN, token.MUL_ASSIGN:
				emit("assign", x.TokPos, x.TokPos+2, "=")
				emit("del", x.Pos(), x.End(), "_ = "+text(x.Rhs[0]))
			}
		case *ast.ReturnStmt:
			// an error swallowed
			if k := len(x.Results); k > 0 {
				l := x.Results[k-1]
				s := text(l)
				if s == "err" || strings.Contains(s, "Error(") || strings.Contains(s, "errors.") {
					emit("swallow", l.Pos(), l.End(), "nil")
				}
			}
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE {
				emit("branch", x.Pos(), x.End(), "break")
			}
		case *ast.CallExpr:
			// arguments of one call exchanged
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				if text(a) != text(b) {
					emit("args", a.Pos(), b.End(), text(b)+", "+text(a))
				}
			}
		case *ast.IndexExpr:
			if id, ok := x.Index.(*ast.Ident); ok {
				for _, p := range [][2]string{{"i", "j"}, {"j", "i"}} {
					if id.Name == p[0] {
						emit("index", x.Index.Pos(), x.Index.End(), p[1])
					}
				}
			}
		case *ast.SelectorExpr:
			for _, p := range [][2]string{{"Rows", "Cols"}, {"Cols", "Rows"}, {"InputSize", "OutputSize"}, {"OutputSize", "InputSize"}, {"Weights", "Biases"}} {
				if x.Sel.Name == p[0] {
					emit("field", x.Sel.Pos(), x.Sel.End(), p[1])
				}
			}
		case *ast.Ident:
			for _, p := range [][2]string{{"weights", "biases"}, {"biases", "weights"}, {"dWeights", "dBiases"}, {"weightMomentums", "biasMomentums"}, {"biasMomentums", "weightMomentums"}} {
				if x.Name == p[0] {
					emit("ident", x.Pos(), x.End(), p[1])
				}
			}
		}
		return true
	})
}
