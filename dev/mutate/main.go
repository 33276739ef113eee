// mutate lists or applies small changes to a Go source file (development aid: mutation analysis of the checks).
//
//	mutate FILE            prints one JSON object per mutant: n, line, what, start, end, text
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	N     int    `json:"n"`
	Line  int    `json:"line"`
	What  string `json:"what"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	enc := json.NewEncoder(os.Stdout)
	n := 0
	emit := func(node ast.Node, what, text string) {
		enc.Encode(mutant{n, fs.Position(node.Pos()).Line, what, off(node.Pos()), off(node.End()), text})
		n++
	}
	quiet := func(s string) bool {
		return strings.Contains(s, "logs.") || strings.Contains(s, "apperr.Errorf") || strings.Contains(s, "Logger")
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.IfStmt:
			if !quiet(txt(v.Cond)) && !strings.Contains(txt(v.Cond), "err != nil") {
				emit(v.Cond, "if -> true", "("+txt(v.Cond)+") || true")
				emit(v.Cond, "if -> false", "("+txt(v.Cond)+") && false")
			} else if strings.Contains(txt(v.Cond), "err != nil") && v.Init == nil {
				emit(v.Cond, "error ignored", txt(v.Cond)+" && false")
			}
		case *ast.BinaryExpr:
			switch v.Op {
			case token.LAND, token.LOR:
				emit(v, "drop left of "+v.Op.String(), txt(v.Y))
				emit(v, "drop right of "+v.Op.String(), txt(v.X))
				o := "||"
				if v.Op == token.LOR {
					o = "&&"
				}
				emit(v, v.Op.String()+" -> "+o, "("+txt(v.X)+" "+o+" "+txt(v.Y)+")")
			case token.EQL:
				if txt(v.Y) != "nil" {
					emit(v, "== -> !=", txt(v.X)+" != "+txt(v.Y))
				}
			case token.NEQ:
				if txt(v.Y) != "nil" {
					emit(v, "!= -> ==", txt(v.X)+" == "+txt(v.Y))
				}
			case token.LSS:
				emit(v, "< -> <=", txt(v.X)+" <= "+txt(v.Y))
			case token.GTR:
				emit(v, "> -> >=", txt(v.X)+" >= "+txt(v.Y))
			case token.LEQ:
				emit(v, "<= -> <", txt(v.X)+" < "+txt(v.Y))
			case token.GEQ:
				emit(v, ">= -> >", txt(v.X)+" > "+txt(v.Y))
			case token.ADD:
				if _, ok := v.Y.(*ast.BasicLit); ok && strings.HasPrefix(txt(v.Y), "\"") {
					emit(v, "drop right string", txt(v.X))
				} else if strings.Contains(txt(v), "\"") {
					emit(v, "drop right of +", txt(v.X))
				} else {
					emit(v, "+ -> -", txt(v.X)+" - "+txt(v.Y))
				}
			case token.SUB:
				emit(v, "- -> +", txt(v.X)+" + "+txt(v.Y))
			}
		case *ast.UnaryExpr:
			if v.Op == token.NOT {
				emit(v, "drop !", txt(v.X))
			}
		case *ast.ExprStmt:
			if !quiet(txt(v)) {
				emit(v, "delete call", "")
			}
		case *ast.IncDecStmt:
			emit(v, "delete inc", "")
		case *ast.AssignStmt:
			if v.Tok != token.DEFINE && !quiet(txt(v)) {
				emit(v, "delete assignment", "")
			}
		case *ast.BranchStmt:
			if v.Tok == token.CONTINUE || v.Tok == token.BREAK {
				emit(v, "delete "+v.Tok.String(), "")
			}
		case *ast.ReturnStmt:
			for _, r := range v.Results {
				if txt(r) == "true" {
					emit(r, "true -> false", "false")
				}
				if txt(r) == "false" {
					emit(r, "false -> true", "true")
				}
			}
		case *ast.CaseClause:
			if len(v.List) > 1 {
				for i := range v.List {
					var parts []string
					for j, e := range v.List {
						if i != j {
							parts = append(parts, txt(e))
						}
					}
					s, e := off(v.List[0].Pos()), off(v.List[len(v.List)-1].End())
					enc.Encode(mutant{n, fs.Position(v.List[i].Pos()).Line, "drop case " + txt(v.List[i]), s, e, strings.Join(parts, ", ")})
					n++
				}
			}
			if len(v.List) > 0 {
				enc.Encode(mutant{n, fs.Position(v.Pos()).Line, "drop clause " + txt(v.List[0]), off(v.Pos()), off(v.End()), ""})
				n++
			}
		case *ast.BasicLit:
			if v.Kind == token.INT {
				k, err := strconv.Atoi(v.Value)
				if err == nil {
					emit(v, "int +1", strconv.Itoa(k+1))
				}
			}
		case *ast.KeyValueExpr:
			if id, ok := v.Key.(*ast.Ident); ok && id.IsExported() {
				e := off(v.End())
				if e < len(src) && src[e] == ',' {
					e++
				}
				enc.Encode(mutant{n, fs.Position(v.Pos()).Line, "drop field " + id.Name, off(v.Pos()), e, ""})
				n++
			}
		}
		return true
	})
	_ = fmt.Sprint
}
