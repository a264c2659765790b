package main

import (
	"encoding/json"
	"fmt"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/mtex"
)

func init() {
	modes["front"] = front
}

type node = map[string]interface{}

func treeOf(n ast.Node) node {
	switch n := n.(type) {
	case nil:
		return node{"k": "nil"}
	case ast.List:
		return node{"k": "list", "l": treesOf(n), "p": int(n.Pos()), "e": int(n.End())}
	case *ast.Word:
		return node{"k": "word", "t": []byte(n.Text), "p": int(n.Pos()), "e": int(n.End())}
	case *ast.Literal:
		return node{"k": "lit", "t": []byte(n.Text), "p": int(n.Pos()), "e": int(n.End())}
	case *ast.Symbol:
		return node{"k": "sym", "t": []byte(n.Text), "p": int(n.Pos()), "e": int(n.End())}
	case *ast.Ident:
		return node{"k": "ident", "t": []byte(n.Name), "p": int(n.Pos()), "e": int(n.End())}
	case *ast.Macro:
		o := node{"k": "mac", "l": treesOf(n.Args), "p": int(n.Pos()), "x": int(n.End())}
		if n.Name != nil {
			o["t"] = []byte(n.Name.Name)
			o["np"] = int(n.Name.Pos())
			o["e"] = int(n.Name.End())
		}
		return o
	case *ast.Arg:
		return node{"k": "arg", "l": treesOf(n.List), "p": int(n.Pos()), "e": int(n.End()),
			"o": int(n.Lbrace), "c": int(n.Rbrace)}
	case *ast.OptArg:
		return node{"k": "opt", "l": treesOf(n.List), "p": int(n.Pos()), "e": int(n.End()),
			"o": int(n.Lbrack), "c": int(n.Rbrack)}
	case *ast.MathExpr:
		return node{"k": "math", "l": treesOf(n.List), "p": int(n.Pos()), "e": int(n.End()),
			"o": int(n.Left), "c": int(n.Right), "d": n.Delim}
	case *ast.Sup:
		return node{"k": "sup", "n": treeOf(n.Node), "p": int(n.Pos()), "e": endOf(n.Node, n)}
	case *ast.Sub:
		return node{"k": "sub", "n": treeOf(n.Node), "p": int(n.Pos()), "e": endOf(n.Node, n)}
	default:
		return node{"k": fmt.Sprintf("unknown %T", n)}
	}
}

func endOf(child, n ast.Node) int {
	if child == nil {
		return -2
	}
	return int(n.End())
}

func treesOf(l ast.List) []node {
	o := make([]node, 0, len(l))
	for _, n := range l {
		o = append(o, treeOf(n))
	}
	return o
}

// nullBackend answers every query: typesetting then only fails for reasons
// of the expression itself.
type nullBackend struct{}

func (nullBackend) RenderGlyph(x, y float64, f font.Font, s string, dpi float64) {}
func (nullBackend) RenderRectFilled(x1, y1, x2, y2 float64)                      {}
func (nullBackend) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	return 0
}
func (nullBackend) Metrics(s string, f font.Font, dpi float64, math bool) font.Metrics {
	z := f.Size
	return font.Metrics{Advance: z, Height: z, Width: z, XMin: 0, XMax: z, YMin: 0, YMax: z, Iceberg: z, Slanted: false}
}
func (nullBackend) XHeight(f font.Font, dpi float64) float64            { return f.Size / 2 }
func (nullBackend) UnderlineThickness(f font.Font, dpi float64) float64 { return f.Size / 16 }

type countRenderer struct{ n int }

func (r *countRenderer) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	r.n++
	return nil
}

func front(raw json.RawMessage) interface{} {
	var req struct {
		S    []byte `json:"s"`
		Mtex bool   `json:"m"`
	}
	must(json.Unmarshal(raw, &req))
	res := node{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				res["s"] = "panic"
				res["msg"] = fmt.Sprint(e)
			}
		}()
		n, err := latex.ParseExpr(string(req.S))
		switch {
		case n != nil && err != nil:
			res["s"] = "both"
		case n == nil && err == nil:
			res["s"] = "neither"
		case err != nil:
			res["s"] = "err"
			res["msg"] = err.Error()
		default:
			res["s"] = "ok"
			res["t"] = treeOf(n)
		}
	}()
	if req.Mtex {
		func() {
			defer func() {
				if e := recover(); e != nil {
					res["ms"] = "panic"
					res["mmsg"] = fmt.Sprint(e)
				}
			}()
			n, err := mtex.Parse(string(req.S), 12, 72, nullBackend{})
			switch {
			case n != nil && err != nil:
				res["ms"] = "both"
			case n == nil && err == nil:
				res["ms"] = "neither"
			case err != nil:
				res["ms"] = "err"
			default:
				res["ms"] = "ok"
				res["md"] = []float64{n.Width(), n.Height(), n.Depth()}
			}
		}()
		func() {
			defer func() {
				if e := recover(); e != nil {
					res["rs"] = "panic"
					res["rmsg"] = fmt.Sprint(e)
				}
			}()
			rec := &countRenderer{}
			err := mtex.Render(rec, string(req.S), 12, 72, nil)
			switch {
			case err != nil && rec.n == 0:
				res["rs"] = "err"
			case err == nil && rec.n == 1:
				res["rs"] = "ok"
			default:
				res["rs"] = fmt.Sprintf("%d calls, error %v", rec.n, err)
			}
		}()
	}
	return res
}
