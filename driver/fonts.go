package main

import (
	"encoding/json"
	"math"
	"unicode/utf8"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	xfont "golang.org/x/image/font"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
)

func init() {
	modes["rawfont"] = rawFont
	modes["fonts"] = fontsMode
}

// rawFont reads what the fonts of a set themselves say: the glyphs of some
// code points, and the kerning of all pairs of a few of them.
func rawFont(raw json.RawMessage) interface{} {
	var req struct {
		Set  string
		Cps  []rune
		Kern []rune
	}
	must(json.Unmarshal(raw, &req))
	fs := fontSet(req.Set)
	ids := map[*sfnt.Font]string{}
	slots := node{}
	out := node{}
	for _, x := range []struct {
		n string
		f *sfnt.Font
	}{{"rm", fs.Rm}, {"it", fs.It}, {"bf", fs.Bf}, {"default", fs.Default}} {
		if _, ok := ids[x.f]; !ok {
			ids[x.f] = req.Set + "/" + x.n
			var buf sfnt.Buffer
			upem := fixed.Int26_6(x.f.UnitsPerEm())
			m, err := x.f.Metrics(&buf, upem, xfont.HintingNone)
			must(err)
			gl, kern := node{}, node{}
			gidx := map[sfnt.GlyphIndex]bool{}
			for _, cp := range req.Cps {
				g, err := x.f.GlyphIndex(&buf, cp)
				must(err)
				adv, err := x.f.GlyphAdvance(&buf, g, upem, xfont.HintingNone)
				must(err)
				b, _, err := x.f.GlyphBounds(&buf, g, fixed.I(12), xfont.HintingNone)
				must(err)
				gl[ukey(cp)] = node{"g": int(g), "a": int(adv), "x0": int(b.Min.X), "x1": int(b.Max.X), "y0": int(-b.Max.Y), "y1": int(-b.Min.Y)}
			}
			for _, cp := range req.Kern {
				g, err := x.f.GlyphIndex(&buf, cp)
				must(err)
				gidx[g] = true
			}
			for a := range gidx {
				for b := range gidx {
					k, err := x.f.Kern(&buf, a, b, upem, xfont.HintingNone)
					if err == nil && k != 0 {
						kern["k"+itoa(int(a))+"x"+itoa(int(b))] = int(k)
					}
				}
			}
			out[ids[x.f]] = node{"upem": int(upem), "xh": int(math.Abs(float64(m.XHeight))), "gl": gl, "kern": kern, "ps": psName(x.f)}
		}
		slots[x.n] = ids[x.f]
	}
	slots["regular"] = slots["rm"]
	return node{"slots": slots, "fonts": out}
}

func ukey(r rune) string { return "u" + itoa(int(r)) }
func itoa(i int) string {
	b, _ := json.Marshal(i)
	return string(b)
}

type fontDescr struct {
	N, T string
	Z    float64
}

func (f fontDescr) font() font.Font { return font.Font{Name: f.N, Type: f.T, Size: f.Z} }

type fontQuery struct {
	Op           string
	B            int
	S, S2        []byte
	F, F2        fontDescr
	DPI          float64
	M            bool
	X, Y, X2, Y2 float64
}

func metricsOf(m font.Metrics) []float64 {
	s := 0.0
	if m.Slanted {
		s = 1
	}
	return []float64{num(m.Advance), num(m.Width), num(m.Height), num(m.Iceberg), num(m.XMin), num(m.XMax), num(m.YMin), num(m.YMax), s}
}

// drawn describes the operations of a canvas in full.
func drawn(set string, c *drawtex.Canvas) []interface{} {
	out := []interface{}{}
	for _, op := range c.Ops() {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			g := op.Glyph
			r, n := utf8.DecodeRuneInString(g.Symbol)
			if n != len(g.Symbol) {
				r = -1
			}
			out = append(out, node{"k": "g", "x": num(op.X), "y": num(op.Y), "z": num(g.Size), "font": slotOf(set, g.Font), "fontps": psName(g.Font), "ps": g.Postscript,
				"cp": r, "g": int(g.Num), "m": metricsOf(g.Metrics), "off": num(g.Offset)})
		case drawtex.RectOp:
			out = append(out, node{"k": "r", "x": num(op.X1), "y": num(op.Y1), "x2": num(op.X2), "y2": num(op.Y2)})
		default:
			out = append(out, node{"k": "?"})
		}
	}
	return out
}

// fontsMode runs histories of queries on backends over the given sets.
func fontsMode(raw json.RawMessage) interface{} {
	var req struct {
		Sets []string
		Qs   []fontQuery
	}
	must(json.Unmarshal(raw, &req))
	var bes []font.Backend
	var cvs []*drawtex.Canvas
	for _, s := range req.Sets {
		c := drawtex.New()
		cvs = append(cvs, c)
		if s == "nil" {
			bes = append(bes, ttf.New(c))
		} else {
			bes = append(bes, ttf.NewFrom(c, fontSet(s)))
		}
	}
	outs := []interface{}{}
	for _, q := range req.Qs {
		be, cv := bes[q.B], cvs[q.B]
		var o node
		switch q.Op {
		case "metrics":
			o = node{"m": metricsOf(be.Metrics(string(q.S), q.F.font(), q.DPI, q.M))}
		case "kern":
			o = node{"v": num(be.Kern(q.F.font(), string(q.S), q.F2.font(), string(q.S2), q.DPI))}
		case "xheight":
			o = node{"v": num(be.XHeight(q.F.font(), q.DPI))}
		case "thick":
			o = node{"v": num(be.UnderlineThickness(q.F.font(), q.DPI))}
		case "draw", "rect":
			before := make([]int, len(cvs))
			for i, c := range cvs {
				before[i] = len(c.Ops())
			}
			if q.Op == "draw" {
				be.RenderGlyph(q.X, q.Y, q.F.font(), string(q.S), q.DPI)
			} else {
				be.RenderRectFilled(q.X, q.Y, q.X2, q.Y2)
			}
			o = node{}
			for i, c := range cvs {
				want := before[i]
				if c == cv {
					want++
				}
				if len(c.Ops()) != want {
					o["stray"] = i
				}
			}
			if ops := drawn(req.Sets[q.B], cv); len(ops) > 0 {
				o["d"] = ops[len(ops)-1]
			}
		}
		outs = append(outs, o)
	}
	fin := []interface{}{}
	for i, c := range cvs {
		fin = append(fin, drawn(req.Sets[i], c))
	}
	return node{"outs": outs, "canvas": fin}
}
