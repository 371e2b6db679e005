// Command mutate lists small source changes of a Go file, one JSON object a
// line: the byte range and its replacement. tools/mutate.py builds each one,
// runs the stable tests, and runs the checks on those the tests let through.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File, Func, Op, Old, New string
	Line, Start, End         int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(op string, s, e token.Pos, repl string) {
			old := string(src[off(s):off(e)])
			if old == repl {
				return
			}
			enc.Encode(mut{f, fn, op, old, repl, fset.Position(s).Line, off(s), off(e)})
		}
		logs := func(n ast.Node) bool {
			t := text(n)
			return strings.Contains(t, "Logger.") || strings.Contains(t, "zap.") || strings.HasPrefix(t, "fmt.Print")
		}
		plain := func(s ast.Stmt) bool {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				return !logs(s)
			case *ast.AssignStmt:
				return s.Tok != token.DEFINE && !logs(s)
			}
			return false
		}
		var visit func(n ast.Node) bool
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				if plain(s) {
					del := ""
					if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN {
						// keep its operands used
						for range a.Rhs {
							del += "_,"
						}
						del = strings.TrimSuffix(del, ",") + " = "
						for k, r := range a.Rhs {
							if k > 0 {
								del += ", "
							}
							del += text(r)
						}
						if len(a.Lhs) != len(a.Rhs) {
							del = strings.Repeat("_,", len(a.Lhs)-1) + "_ = " + text(a.Rhs[0])
						}
					}
					emit("delete", s.Pos(), s.End(), del)
				}
				if b, ok := s.(*ast.BranchStmt); ok {
					emit("delete", s.Pos(), s.End(), "")
					_ = b
				}
				if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 0 {
					emit("delete", s.Pos(), s.End(), "")
				}
				if r, ok := s.(*ast.IfStmt); ok && r.Else == nil && r.Init == nil && !logs(r.Cond) {
					emit("delete if", s.Pos(), s.End(), "_ = "+text(r.Cond))
				}
				if i+1 < len(l) && (plain(s) || simple(s)) && (plain(l[i+1]) || simple(l[i+1])) && !logs(s) && !logs(l[i+1]) {
					emit("swap", s.Pos(), l[i+1].End(), text(l[i+1])+"\n"+text(s))
				}
				if d, ok := s.(*ast.DeferStmt); ok {
					emit("undefer", d.Pos(), d.End(), text(d.Call))
				}
				if d, ok := s.(*ast.GoStmt); ok {
					emit("ungo", d.Pos(), d.End(), text(d.Call))
				}
			}
		}
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				fn = n.Name.Name
				if n.Recv != nil {
					fn = text(n.Recv.List[0].Type) + "." + fn
				}
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				return false
			case *ast.CallExpr:
				if logs(n.Fun) || strings.HasPrefix(text(n.Fun), "fmt.") || strings.HasPrefix(text(n.Fun), "errors.") {
					return false
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.IfStmt:
				if !logs(n.Cond) {
					emit("negate", n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit("no loop", n.Cond.Pos(), n.Cond.End(), "false && "+text(n.Cond))
				}
			case *ast.BinaryExpr:
				for _, t := range map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
					token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
				}[n.Op] {
					emit("op "+n.Op.String()+"→"+t, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("drop right", n.Pos(), n.End(), text(n.X))
					emit("drop left", n.Pos(), n.End(), text(n.Y))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("drop !", n.Pos(), n.End(), text(n.X))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit("int+1", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int-1", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				}
				if n.Kind == token.STRING {
					if v, err := strconv.Unquote(n.Value); err == nil && v != "" {
						emit("string", n.Pos(), n.End(), strconv.Quote(v+"x"))
					}
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					emit("bool", n.Pos(), n.End(), "false")
				case "false":
					emit("bool", n.Pos(), n.End(), "true")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit("return nil", r.Pos(), r.End(), "nil")
					}
					if strings.HasPrefix(text(r), "errors.") {
						emit("return nil", r.Pos(), r.End(), "nil")
					}
				}
			case *ast.SelectorExpr:
				sw := map[string]string{"RLock": "Lock", "Lock": "RLock", "RUnlock": "Unlock", "Unlock": "RUnlock", "Complete": "Incomplete", "Incomplete": "Complete",
					"Seeds": "Leeches", "Leeches": "Seeds", "IP": "Port", "Is4": "Is6", "BigEndian": "LittleEndian", "LittleEndian": "BigEndian",
					"Min": "Max", "Max": "Min", "Default": "Limit", "Limit": "Default", "Hits": "Announces", "Announces": "Scrapes", "Scrapes": "Announces",
					"Second": "Minute", "Minute": "Second", "Uint16": "Uint32", "Get": "Put"}
				if to, ok := sw[n.Sel.Name]; ok {
					emit("name", n.Sel.Pos(), n.Sel.End(), to)
				}
			}
			return true
		}
		ast.Inspect(file, visit)
	}
}

func simple(s ast.Stmt) bool {
	if a, ok := s.(*ast.AssignStmt); ok {
		return a.Tok == token.DEFINE
	}
	return false
}
