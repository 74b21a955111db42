// Command mutate lists small changes of a package: one JSON object {file, from, to, text, kind, line} per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	From, To int
	Text     string `json:"text"`
	Kind     string `json:"kind"`
	Line     int    `json:"line"`
}

var enc = json.NewEncoder(os.Stdout)

func main() {
	for _, dir := range os.Args[1:] {
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			if !strings.HasSuffix(f, "_test.go") {
				file(f)
			}
		}
	}
}

func file(path string) {
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	emit := func(kind string, from, to token.Pos, text string) {
		a, b := off(from), off(to)
		if string(src[a:b]) == text {
			return
		}
		enc.Encode(mutant{path, a, b, text, kind, fset.Position(from).Line})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ops := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"}, token.AND_NOT: {"&"}, token.XOR: {"|"},
	}
	cond := func(e ast.Expr) {
		if e == nil {
			return
		}
		emit("true", e.Pos(), e.End(), "true || "+text(e))
		emit("false", e.Pos(), e.End(), "false && ("+text(e)+")")
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch x := s.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit("delete", s.Pos(), s.End(), "_ = 0")
				}
			case *ast.ExprStmt, *ast.IncDecStmt:
				emit("delete", s.Pos(), s.End(), "")
			case *ast.BranchStmt:
				if x.Tok == token.BREAK {
					emit("continue", s.Pos(), s.End(), "continue")
				} else if x.Tok == token.CONTINUE {
					emit("break", s.Pos(), s.End(), "break")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit("noerr", r.Pos(), r.End(), "nil")
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
			}
			switch x.Op {
			case token.ADD, token.SUB, token.AND_NOT, token.REM:
				emit("left", x.Pos(), x.End(), text(x.X))
			case token.LAND, token.LOR:
				emit("left", x.Pos(), x.End(), text(x.X))
				emit("right", x.Pos(), x.End(), text(x.Y))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit("const", x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 {
						emit("const", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
					if v > 0xFF {
						emit("const", x.Pos(), x.End(), fmt.Sprint(v/2))
					}
				}
			} else if x.Kind == token.STRING && len(x.Value) > 3 && x.Value[0] == '"' {
				emit("string", x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"_\"")
			}
		case *ast.IfStmt:
			cond(x.Cond)
			if x.Else != nil {
				if b, ok := x.Else.(*ast.BlockStmt); ok {
					emit("noelse", b.Pos(), b.End(), "{}")
				}
			}
		case *ast.ForStmt:
			cond(x.Cond)
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit("not", x.Pos(), x.End(), text(x.X))
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
				switch id.Name {
				case "int64", "int", "uint32", "uint64":
					emit("narrow", x.Pos(), x.End(), id.Name+"(uint16("+text(x.Args[0])+"))")
				case "uint16":
					emit("narrow", x.Pos(), x.End(), "uint16(uint8("+text(x.Args[0])+"))")
				}
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			for _, e := range x.List {
				if len(x.List) > 1 {
					emit("case", e.Pos(), e.End(), text(x.List[0]))
				}
			}
		case *ast.SliceExpr:
			if x.High != nil && x.Low != nil {
				emit("low", x.Low.Pos(), x.Low.End(), "0")
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit("bool", x.Pos(), x.End(), "false")
			} else if x.Name == "false" {
				emit("bool", x.Pos(), x.End(), "true")
			}
		}
		return true
	})
}
