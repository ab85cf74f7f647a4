// Command mutate writes small changes of Go files: mutate OUTDIR FILE...
// Each change is a JSON line {file, line, off, end, new, what} on stdout.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		at := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
		emit := func(from, to token.Pos, new, what string) {
			b, _ := json.Marshal(change{file, fs.Position(from).Line, at(from), at(to), new, what})
			fmt.Println(string(b))
		}
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, s := range swap[v.Op] {
					emit(v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), s, text(v)+"  "+v.Op.String()+" -> "+s)
				}
				if v.Op == token.LAND || v.Op == token.LOR {
					emit(v.Pos(), v.End(), text(v.X), text(v)+"  -> "+text(v.X))
					emit(v.Pos(), v.End(), text(v.Y), text(v)+"  -> "+text(v.Y))
				}
				if v.Op == token.ADD || v.Op == token.SUB {
					emit(v.Pos(), v.End(), text(v.X), text(v)+"  -> "+text(v.X))
				}
			case *ast.IfStmt:
				emit(v.Cond.Pos(), v.Cond.End(), "!("+text(v.Cond)+")", "if "+text(v.Cond)+"  negated")
				if v.Init == nil {
					emit(v.Cond.Pos(), v.Cond.End(), "false && ("+text(v.Cond)+")", "if "+text(v.Cond)+"  -> false")
					emit(v.Cond.Pos(), v.Cond.End(), "true || ("+text(v.Cond)+")", "if "+text(v.Cond)+"  -> true")
				}
			case *ast.BasicLit:
				if v.Kind == token.INT {
					if n, err := strconv.Atoi(v.Value); err == nil {
						emit(v.Pos(), v.End(), strconv.Itoa(n+1), v.Value+" -> +1")
						if n > 0 {
							emit(v.Pos(), v.End(), strconv.Itoa(n-1), v.Value+" -> -1")
						}
					}
				}
			case *ast.Ident:
				if v.Name == "true" {
					emit(v.Pos(), v.End(), "false", "true -> false")
				} else if v.Name == "false" {
					emit(v.Pos(), v.End(), "true", "false -> true")
				}
			case *ast.UnaryExpr:
				if v.Op == token.NOT {
					emit(v.Pos(), v.X.Pos(), "", text(v)+"  -> no !")
				}
			case *ast.BlockStmt:
				for _, s := range v.List {
					drop(s, emit, text)
				}
			case *ast.CaseClause:
				for _, s := range v.Body {
					drop(s, emit, text)
				}
			case *ast.BranchStmt:
				if v.Tok == token.BREAK && v.Label == nil {
					emit(v.Pos(), v.End(), "continue", "break -> continue")
				} else if v.Tok == token.CONTINUE && v.Label == nil {
					emit(v.Pos(), v.End(), "break", "continue -> break")
				}
			}
			return true
		})
	}
}

func drop(s ast.Stmt, emit func(a, b token.Pos, n, w string), text func(ast.Node) string) {
	switch v := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
		emit(s.Pos(), s.End(), "", text(s)+"  dropped")
	case *ast.AssignStmt:
		if v.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "_ = 0", text(s)+"  dropped")
		}
	case *ast.IfStmt:
		if v.Else == nil {
			emit(s.Pos(), s.End(), "", "if ..."+"  dropped")
		}
	}
}
