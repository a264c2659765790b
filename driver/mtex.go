package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
)

func init() { modes["mtex"] = mtexMode }

// mtexTable is a linear font: coefficients (eighths of the size in dots)
// of "symbol|type|mode".
type mtexTable struct {
	Glyphs map[string]coefs
	Kerns  map[string]map[string]float64
	Thick  float64
}

var (
	mtexOnce sync.Once
	mtexTab  mtexTable
)

func loadMtexTable() *mtexTable {
	mtexOnce.Do(func() {
		raw, err := os.ReadFile(os.Getenv("VERIF_TABLE"))
		must(err)
		must(json.Unmarshal(raw, &mtexTab))
	})
	return &mtexTab
}

// mtexBackend records what is asked of it.
type mtexBackend struct {
	t     *mtexTable
	draws [][]interface{}
	minus map[string]bool
}

func (be *mtexBackend) key(s, typ string, math bool) string {
	if math {
		return s + "|" + typ + "|m"
	}
	return s + "|" + typ + "|t"
}

func eff(f font.Font, dpi float64) float64 { return f.Size * dpi / 72 / 8 }

func (be *mtexBackend) RenderGlyph(x, y float64, f font.Font, symbol string, dpi float64) {
	be.draws = append(be.draws, []interface{}{"g", []byte(symbol), f.Name, f.Type, num(f.Size), dpi, num(x), num(y)})
}
func (be *mtexBackend) RenderRectFilled(x1, y1, x2, y2 float64) {
	be.draws = append(be.draws, []interface{}{"r", num(x1), num(y1), num(x2), num(y2)})
}
func (be *mtexBackend) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	if f1 != f2 {
		return 0
	}
	return be.t.Kerns[be.key(s1, f1.Type, true)][be.key(s2, f2.Type, true)] * eff(f1, dpi)
}
func (be *mtexBackend) Metrics(symbol string, f font.Font, dpi float64, math bool) font.Metrics {
	k := be.key(symbol, f.Type, math)
	g, ok := be.t.Glyphs[k]
	if !ok {
		panic(fmt.Errorf("unknown symbol %q", k))
	}
	if symbol == "-" {
		be.minus[k] = true
	}
	u := eff(f, dpi)
	return font.Metrics{Advance: g.A * u, Width: g.W * u, Height: g.H * u, Iceberg: g.I * u,
		XMin: g.X0 * u, XMax: g.X1 * u, YMin: g.Y0 * u, YMax: g.Y1 * u}
}
func (be *mtexBackend) XHeight(f font.Font, dpi float64) float64 { return 4 * eff(f, dpi) }
func (be *mtexBackend) UnderlineThickness(f font.Font, dpi float64) float64 {
	return be.t.Thick * eff(f, dpi)
}

func mtexMode(raw json.RawMessage) interface{} {
	var req struct {
		S         []byte
		Size, DPI float64
	}
	must(json.Unmarshal(raw, &req))
	be := &mtexBackend{t: loadMtexTable(), minus: map[string]bool{}, draws: [][]interface{}{}}
	n, err := mtex.Parse(string(req.S), req.Size, req.DPI, be)
	if err != nil {
		return node{"s": "err", "msg": err.Error()}
	}
	w, h, d := n.Width(), n.Height(), n.Depth()
	if len(be.draws) > 0 {
		return node{"s": "early"}
	}
	var sh tex.Ship
	sh.Call(0, 0, n.(tex.Tree))
	minus := []string{}
	for k := range be.minus {
		minus = append(minus, k)
	}
	return node{"s": "ok", "w": num(w), "h": num(h), "d": num(d), "dr": be.draws, "minus": minus}
}
