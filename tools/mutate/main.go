// mutate lists single-edit mutants of Go files, as JSON lines
// {file, off, end, text, line, kind, func}.
//
//	go run ./tools/mutate/main.go FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Text string `json:"text"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
	Func string `json:"func"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*", "%"},
	token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+="}, token.OR_ASSIGN: {"=", "&="}, token.AND_ASSIGN: {"="},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		emit := func(a, b token.Pos, text, kind string) {
			p := fs.Position(a)
			enc.Encode(mut{f, p.Offset, fs.Position(b).Offset, text, p.Line, kind, fn})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		tablelits := 0
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
				if x.Recv != nil {
					fn = text(x.Recv.List[0].Type) + "." + fn
				}
				tablelits = 0
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
				if fn == "" {
					fn = "(decl)"
				}
			case *ast.CallExpr:
				// messages are not judged
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					if p, ok := s.X.(*ast.Ident); ok {
						if p.Name == "errors" && (s.Sel.Name == "New") || p.Name == "fmt" && s.Sel.Name == "Errorf" || s.Sel.Name == "Fprintf" && false {
							return false
						}
						if p.Name == "errors" {
							return false
						}
					}
				}
			case *ast.CompositeLit:
				if len(x.Elts) > 12 { // a table: a few samples
					for i, e := range x.Elts {
						if i%9 != 4 {
							continue
						}
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							e = kv.Value
						}
						if b, ok := e.(*ast.BasicLit); ok {
							walk(b)
							tablelits++
						}
					}
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op "+x.Op.String()+" to "+s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "drop right of "+x.Op.String())
					emit(x.Pos(), x.End(), text(x.Y), "drop left of "+x.Op.String())
				}
			case *ast.AssignStmt:
				for _, s := range swaps[x.Tok] {
					emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), s, "op "+x.Tok.String()+" to "+s)
				}
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "{}", "drop statement")
				}
			case *ast.IncDecStmt:
				o := "--"
				if x.Tok == token.DEC {
					o = "++"
				}
				emit(x.TokPos, x.TokPos+2, o, "inc/dec")
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "{}", "drop statement")
			case *ast.IfStmt:
				c := text(x.Cond)
				if x.Init == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+c+")", "always")
				}
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+c+")", "never")
			case *ast.ForStmt:
			case *ast.BranchStmt:
				if x.Label == nil {
					switch x.Tok {
					case token.BREAK:
						emit(x.Pos(), x.End(), "continue", "break to continue")
					case token.CONTINUE:
						emit(x.Pos(), x.End(), "break", "continue to break")
					}
				}
				emit(x.Pos(), x.End(), "{}", "drop branch")
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					t := text(r)
					if i == len(x.Results)-1 && t == "err" {
						emit(r.Pos(), r.End(), "nil", "return nil error")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice low+1")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice high-1")
				}
			case *ast.CaseClause:
				if len(x.List) > 1 {
					emit(x.List[0].Pos(), x.List[1].Pos(), "", "drop case")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int "+x.Value+"+1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int "+x.Value+"-1")
						}
					}
				case token.CHAR:
					r, _, _, err := strconv.UnquoteChar(x.Value[1:], '\'')
					if err == nil {
						emit(x.Pos(), x.End(), strconv.QuoteRune(r+1), "char "+x.Value+"+1")
					}
				case token.STRING:
					if x.Value[0] == '"' {
						emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"#\"", "string")
					}
				}
			case *ast.Field:
				return false
			}
			return true
		}
		ast.Inspect(file, walk)
	}
}
