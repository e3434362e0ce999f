// gomut lists or applies mechanical mutations of a Go file: gomut FILE prints one JSON line per mutation
// {"file", "i", "line", "what", "src"} with the mutated source.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	for _, f := range os.Args[1:] {
		mutate(f)
	}
}

func mutate(file string) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	tree, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	n := 0
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	emit := func(from, to token.Pos, with, what string) {
		a, b := off(from), off(to)
		s := string(src[:a]) + with + string(src[b:])
		enc.Encode(map[string]interface{}{"file": file, "i": n, "line": fs.Position(from).Line,
			"what": what + ": " + string(src[a:b]) + " -> " + with, "src": s})
		n++
	}
	text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
	}
	ast.Inspect(tree, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, w := range swap[v.Op] {
				if v.Op == token.ADD {
					if l, ok := v.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
					if l, ok := v.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
				}
				emit(v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), w, "operator")
			}
			if v.Op == token.LAND || v.Op == token.LOR {
				emit(v.Pos(), v.End(), text(v.X), "left only")
				emit(v.Pos(), v.End(), text(v.Y), "right only")
			}
		case *ast.IfStmt:
			emit(v.Cond.Pos(), v.Cond.End(), "!("+text(v.Cond)+")", "condition")
			emit(v.Cond.Pos(), v.Cond.End(), "false && ("+text(v.Cond)+")", "never")
		case *ast.BasicLit:
			switch v.Kind {
			case token.INT:
				if k, err := strconv.ParseInt(v.Value, 0, 64); err == nil {
					emit(v.Pos(), v.End(), fmt.Sprint(k+1), "number")
					if k > 0 {
						emit(v.Pos(), v.End(), fmt.Sprint(k-1), "number")
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(v.Value); err == nil {
					emit(v.Pos(), v.End(), strconv.Quote(s+"x"), "text")
					if len(s) > 1 {
						emit(v.Pos(), v.End(), strconv.Quote(s[:len(s)-1]), "text")
					}
				}
			case token.CHAR:
				emit(v.Pos(), v.End(), "'\\x01'", "character")
			}
		case *ast.Ident:
			if v.Name == "true" {
				emit(v.Pos(), v.End(), "false", "truth")
			} else if v.Name == "false" {
				emit(v.Pos(), v.End(), "true", "truth")
			}
		case *ast.BranchStmt:
			if v.Label == nil && v.Tok == token.BREAK {
				emit(v.Pos(), v.End(), "continue", "branch")
			}
			if v.Label == nil && v.Tok == token.CONTINUE {
				emit(v.Pos(), v.End(), "break", "branch")
			}
		case *ast.ExprStmt:
			emit(v.Pos(), v.End(), "", "dropped")
		case *ast.DeferStmt:
			emit(v.Pos(), v.End(), "", "dropped")
		case *ast.IncDecStmt:
			emit(v.Pos(), v.End(), "", "dropped")
		case *ast.AssignStmt:
			if v.Tok != token.DEFINE {
				emit(v.Pos(), v.End(), "", "dropped")
			} else if len(v.Rhs) == 1 && len(v.Lhs) == 1 {
				break
			}
		case *ast.UnaryExpr:
			if v.Op == token.NOT {
				emit(v.Pos(), v.End(), text(v.X), "not dropped")
			}
		case *ast.SliceExpr:
			if v.Low != nil {
				emit(v.Low.Pos(), v.Low.End(), text(v.Low)+"+1", "bound")
			}
			if v.High != nil {
				emit(v.High.Pos(), v.High.End(), text(v.High)+"-1", "bound")
			}
		case *ast.CaseClause:
			if len(v.List) > 1 {
				for _, e := range v.List[1:] {
					// cut ", e"
					a := e.Pos() - 1
					for src[off(a)] != ',' {
						a--
					}
					emit(a, e.End(), "", "case dropped")
				}
			}
		case *ast.ReturnStmt:
			if len(v.Results) == 1 {
				if s := text(v.Results[0]); s == "err" {
					emit(v.Results[0].Pos(), v.Results[0].End(), "nil", "error dropped")
				}
			}
			if len(v.Results) == 2 {
				if s := text(v.Results[1]); s == "err" {
					emit(v.Results[1].Pos(), v.Results[1].End(), "nil", "error dropped")
				}
			}
		}
		return true
	})
}
