package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type M struct {
	File     string
	Off, End int
	New      string
	Desc     string
	Line     int
	Func     string
}

var out []M

func main() {
	for _, f := range os.Args[2:] {
		file(os.Args[1], f)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

var swap = map[string]string{"Height": "Depth", "Depth": "Height", "Width": "Height", "height": "depth", "depth": "height", "width": "height", "Max": "Min", "Min": "Max",
	"XMin": "XMax", "XMax": "XMin", "YMin": "YMax", "YMax": "YMin", "X1": "X2", "X2": "X1", "Y1": "Y2", "Y2": "Y1", "Floor": "Ceil", "Ceil": "Floor", "X": "Y", "Y": "X",
	"stretch": "shrink", "shrink": "stretch", "List": "List", "It": "Bf", "Bf": "It", "Shift": "Depth", "shift": "depth", "h": "v", "v": "h", "Pos": "End", "End": "Pos", "Iceberg": "YMin", "Advance": "Width"}

func file(root, f string) {
	src, err := os.ReadFile(root + "/" + f)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	t, err := parser.ParseFile(fs, f, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	for _, d := range t.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		add := func(a, b token.Pos, nw, desc string) {
			old := string(src[off(a):off(b)])
			if old == nw {
				return
			}
			if len(old) > 60 {
				old = old[:60] + "..."
			}
			out = append(out, M{f, off(a), off(b), nw, desc + ": " + strings.ReplaceAll(old, "\n", " "), fs.Position(a).Line, fn.Name.Name})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "panic" {
					return false
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					if w, ok := s.X.(*ast.Ident); ok && (w.Name == "fmt" || w.Name == "log" || w.Name=="flag") {
						return false
					}
				}
				if len(n.Args) == 2 {
					add(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "swapargs")
				}
			case *ast.BinaryExpr:
				rep := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.GTR: {">=", "<="}, token.LEQ: {"<"}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}[n.Op]
				for _, r := range rep {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "op")
				}
				switch n.Op {
				case token.LAND, token.LOR, token.ADD, token.SUB:
					add(n.Pos(), n.End(), text(n.X), "left")
					add(n.Pos(), n.End(), text(n.Y), "right")
				}
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
				if n.Else != nil {
					add(n.Body.Pos(), n.Body.End(), "{}", "emptythen")
				}
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					add(n.Pos(), n.End(), "", "delete")
					if n.Tok == token.ADD_ASSIGN {
						add(n.TokPos, n.TokPos+2, "-=", "op")
						add(n.TokPos, n.TokPos+2, "=", "op")
					}
					if n.Tok == token.SUB_ASSIGN {
						add(n.TokPos, n.TokPos+2, "+=", "op")
					}
				}
			case *ast.IncDecStmt:
				add(n.Pos(), n.End(), "", "delete")
			case *ast.ExprStmt:
				add(n.Pos(), n.End(), "", "delete")
			case *ast.DeferStmt:
				add(n.Pos(), n.End(), "", "delete")
			case *ast.BranchStmt:
				add(n.Pos(), n.End(), "", "delete")
			case *ast.ReturnStmt:
				if len(n.Results) == 0 {
					add(n.Pos(), n.End(), "", "delete")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, e := strconv.Atoi(n.Value)
					if e == nil {
						add(n.Pos(), n.End(), fmt.Sprint(v+1), "int")
						if v > 0 {
							add(n.Pos(), n.End(), fmt.Sprint(v-1), "int")
						}
					}
				case token.FLOAT:
					v, e := strconv.ParseFloat(n.Value, 64)
					if e == nil {
						add(n.Pos(), n.End(), fmt.Sprintf("%g", v*1.25+0.001), "float")
					}
				case token.CHAR:
					add(n.Pos(), n.End(), "'@'", "char")
				case token.STRING:
					if len(n.Value) > 3 && !strings.Contains(n.Value, " ") {
						add(n.Pos(), n.End(), `"zz"`, "string")
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					add(n.Pos(), n.End(), "false", "bool")
				}
				if n.Name == "false" {
					add(n.Pos(), n.End(), "true", "bool")
				}
			case *ast.SelectorExpr:
				if s, ok := swap[n.Sel.Name]; ok {
					add(n.Sel.Pos(), n.Sel.End(), s, "swap")
				}
			case *ast.CaseClause:
				if len(n.List) > 1 {
					for i := range n.List {
						var keep []string
						for j, x := range n.List {
							if j != i {
								keep = append(keep, text(x))
							}
						}
						add(n.List[0].Pos(), n.List[len(n.List)-1].End(), strings.Join(keep, ", "), "dropcase "+text(n.List[i]))
					}
				}
			case *ast.CompositeLit:
				if len(n.Elts) < 15 {
					for _, e := range n.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							end := e.End()
							for int(off(end)) < len(src) && src[off(end)] != ',' && src[off(end)] != '}' {
								end++
							}
							if src[off(end)] == ',' {
								end++
							}
							add(e.Pos(), end, "", "dropfield "+text(kv.Key))
						}
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.SUB || n.Op == token.NOT {
					add(n.OpPos, n.OpPos+1, " ", "unary")
				}
			}
			return true
		})
	}
}
