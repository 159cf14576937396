// mutate lists simple mutations of Go files, as JSON lines. Development aid.
package main

import (
	"encoding/json"

	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Old  string `json:"old"`
	Op   string `json:"op"`
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(op string, from, to token.Pos, repl string) {
			old := string(src[off(from):off(to)])
			if old == repl || strings.Contains(old, "Logger.") && len(old) < 200 {
				return
			}
			json.NewEncoder(os.Stdout).Encode(mut{file, fset.Position(from).Line, off(from), off(to), repl, old, op})
		}
		rep := func(op string, n ast.Node, repl string) { emit(op, n.Pos(), n.End(), repl) }
		block := func(list []ast.Stmt) {
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
					rep("delete", s, "")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						rep("delete", s, "")
					}
				case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt:
					rep("delete", s, "")
				case *ast.ReturnStmt:
					if i == len(list)-1 && len(s.Results) == 0 {
						rep("delete", s, "")
					}
				case *ast.BranchStmt:
					rep("delete", s, "")
				}
				// Swap with the next one.
				if i+1 < len(list) {
					a, b := text(s), text(list[i+1])
					if len(a)+len(b) < 400 {
						mid := string(src[off(s.End()):off(list[i+1].Pos())])
						emit("swap", s.Pos(), list[i+1].End(), b+mid+a)
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Name.Name == "status" || n.Body == nil {
					return true
				}
			case *ast.BlockStmt:
				block(n.List)
			case *ast.CaseClause:
				block(n.Body)
				if len(n.Body) > 0 {
					emit("empty-case", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
				if len(n.List) > 0 {
					rep("drop-case", n, "")
				}
				if len(n.List) > 1 {
					for i := range n.List {
						var l []string
						for j, e := range n.List {
							if i != j {
								l = append(l, text(e))
							}
						}
						emit("drop-alt", n.List[0].Pos(), n.List[len(n.List)-1].End(), strings.Join(l, ", "))
					}
				}
			case *ast.CommClause:
				block(n.Body)
				rep("drop-case", n, "")
				if len(n.Body) > 0 {
					emit("empty-case", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
			case *ast.IfStmt:
				rep("negate", n.Cond, "!("+text(n.Cond)+")")
				rep("true", n.Cond, "true || ("+text(n.Cond)+")")
				rep("false", n.Cond, "false && ("+text(n.Cond)+")")
			case *ast.BinaryExpr:
				m := map[token.Token][]string{
					token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
				}
				for _, o := range m[n.Op] {
					emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					rep("left", n, text(n.X))
					rep("right", n, text(n.Y))
				}
			case *ast.Ident:
				if n.Name == "true" {
					rep("bool", n, "false")
				} else if n.Name == "false" {
					rep("bool", n, "true")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					switch n.Value {
					case "0":
						rep("int", n, "1")
					case "1":
						rep("int", n, "0")
						rep("int", n, "2")
					default:
						rep("int", n, n.Value+"+1")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
						rep("return", r, `errors.New("mutant")`)
						continue
					}
					rep("return", r, "nil")
				}
			case *ast.GoStmt:
				emit("sync", n.Go, n.Call.Pos(), "")
			case *ast.CallExpr:
				t := text(n.Fun)
				switch {
				case strings.HasSuffix(t, "tomb.Dying"):
					rep("dead", n.Fun, strings.TrimSuffix(t, "Dying")+"Dead")
				case strings.HasSuffix(t, "tomb.Dead"):
					rep("dying", n.Fun, strings.TrimSuffix(t, "Dead")+"Dying")
				case t == "make" && len(n.Args) == 1 && strings.HasPrefix(text(n.Args[0]), "chan"):
					emit("buffer", n.Rparen, n.Rparen, ", 1")
				case t == "make" && len(n.Args) == 2 && strings.HasPrefix(text(n.Args[0]), "chan"):
					emit("unbuffer", n.Args[0].End(), n.Rparen, "")
				case strings.HasSuffix(t, ".Kill") && len(n.Args) == 0:
					emit("async", n.Pos(), n.Pos(), "go ")
				case strings.HasSuffix(t, ".Stop") && len(n.Args) == 1:
					rep("kill-only", n, text(n.Args[0])+".Kill()")
				case t == "errors.Is" && len(n.Args) == 2:
					rep("is-eq", n, "("+text(n.Args[0])+" == "+text(n.Args[1])+")")
				}
			}
			return true
		})
	}
}
