package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"image"
	"image/png"
	"math"
	"os"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/mtex"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"golang.org/x/image/vector"
)

func init() {
	modes["mask"] = maskMode
	modes["image"] = imageMode
	modes["picture"] = pictureMode
}

func fontIn(set, slot string) *sfnt.Font {
	fs := fontSet(set)
	switch slot {
	case "rm":
		return fs.Rm
	case "it":
		return fs.It
	case "bf":
		return fs.Bf
	case "default":
		return fs.Default
	}
	panic("unknown slot " + slot)
}

// maskMode: the shape of a glyph at a place, from the outlines of the font:
// the share of each pixel that it covers, in 1/10000.
func maskMode(raw json.RawMessage) interface{} {
	var q struct {
		Set, Slot  string
		Rune       rune
		Size, X, Y float64
		DPI        float64
	}
	must(json.Unmarshal(raw, &q))
	ft := fontIn(q.Set, q.Slot)
	var buf sfnt.Buffer
	idx, err := ft.GlyphIndex(&buf, q.Rune)
	must(err)
	if idx == 0 {
		// a symbol the font has no glyph for leaves no mark
		return node{"x": 0, "y": 0, "w": 0, "h": 0, "m": []int{}}
	}
	upem := int(ft.UnitsPerEm())
	segs, err := ft.LoadGlyph(&buf, idx, fixed.I(upem), nil)
	must(err)
	sc := q.Size * q.DPI / 72 / float64(upem) / 64
	px, py := q.X*q.DPI/72, q.Y*q.DPI/72
	minx, miny, maxx, maxy := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	n := map[sfnt.SegmentOp]int{sfnt.SegmentOpMoveTo: 1, sfnt.SegmentOpLineTo: 1, sfnt.SegmentOpQuadTo: 2, sfnt.SegmentOpCubeTo: 3}
	pt := func(p fixed.Point26_6) (float64, float64) {
		return px + float64(p.X)*sc, py + float64(p.Y)*sc
	}
	for _, s := range segs {
		for _, a := range s.Args[:n[s.Op]] {
			x, y := pt(a)
			minx, maxx = math.Min(minx, x), math.Max(maxx, x)
			miny, maxy = math.Min(miny, y), math.Max(maxy, y)
		}
	}
	if len(segs) == 0 {
		return node{"x": 0, "y": 0, "w": 0, "h": 0, "m": []int{}}
	}
	// (a pixel more on each side: outlines are placed to 1/64 of a pixel)
	x0, y0 := int(math.Floor(minx))-1, int(math.Floor(miny))-1
	w, h := int(math.Ceil(maxx))+1-x0, int(math.Ceil(maxy))+1-y0
	rast := vector.NewRasterizer(w, h)
	at := func(p fixed.Point26_6) (float32, float32) {
		x, y := pt(p)
		return float32(x - float64(x0)), float32(y - float64(y0))
	}
	for _, s := range segs {
		ax, ay := at(s.Args[0])
		bx, by := at(s.Args[1])
		cx, cy := at(s.Args[2])
		switch s.Op {
		case sfnt.SegmentOpMoveTo:
			rast.MoveTo(ax, ay)
		case sfnt.SegmentOpLineTo:
			rast.LineTo(ax, ay)
		case sfnt.SegmentOpQuadTo:
			rast.QuadTo(ax, ay, bx, by)
		case sfnt.SegmentOpCubeTo:
			rast.CubeTo(ax, ay, bx, by, cx, cy)
		}
	}
	m := image.NewAlpha(image.Rect(0, 0, w, h))
	rast.Draw(m, m.Bounds(), image.Opaque, image.Point{})
	out := make([]int, w*h)
	for i, a := range m.Pix {
		out[i] = (int(a)*10000 + 127) / 255
	}
	return node{"x": x0, "y": y0, "w": w, "h": h, "m": out}
}

var errWriter = errors.New("the writer of the test failed")

// limWriter takes only so many bytes.
type limWriter struct {
	buf bytes.Buffer
	max int
}

func (w *limWriter) Write(p []byte) (int, error) {
	if w.max >= 0 && w.buf.Len()+len(p) > w.max {
		n := w.max - w.buf.Len()
		w.buf.Write(p[:n])
		return n, errWriter
	}
	return w.buf.Write(p)
}

func imageMode(raw json.RawMessage) interface{} {
	var q struct {
		W, H, DPI float64
		Ops       []struct {
			K         string
			X1, Y1    float64
			X2, Y2    float64
			Set, Slot string
			Rune      rune
			Size      float64
		}
		Caps []float64 // shares of the length of the image
	}
	must(json.Unmarshal(raw, &q))
	c := drawtex.New()
	for _, o := range q.Ops {
		if o.K == "r" {
			c.RenderRectFilled(o.X1, o.Y1, o.X2, o.Y2)
			continue
		}
		ft := fontIn(o.Set, o.Slot)
		idx, err := ft.GlyphIndex(nil, o.Rune)
		must(err)
		c.RenderGlyph(o.X1, o.Y1, drawtex.Glyph{Font: ft, Size: o.Size, Postscript: psName(ft), Symbol: string(o.Rune), Num: idx})
	}
	one := &limWriter{max: -1}
	r := drawimg.NewRenderer(one)
	out := node{"err": ""}
	if err := r.Render(q.W, q.H, q.DPI, c); err != nil {
		out["err"] = err.Error()
		return out
	}
	out["img"] = imageOf(one.buf.Bytes())
	// once more, after another drawing and with the renderer used before
	x := drawtex.New()
	x.RenderRectFilled(0, 0, 50, 50)
	if err := drawimg.NewRenderer(new(bytes.Buffer)).Render(0.5, 0.5, 100, x); err != nil {
		out["err2"] = err.Error()
	}
	n := one.buf.Len()
	if err := r.Render(q.W, q.H, q.DPI, c); err != nil {
		out["err2"] = err.Error()
	}
	out["same"] = bytes.Equal(one.buf.Bytes()[:n], one.buf.Bytes()[n:])
	var caps []string
	for _, s := range q.Caps {
		w := &limWriter{max: int(s * float64(n))}
		if w.max >= n {
			w.max = n - 1
		}
		if s >= 1 {
			w.max = n
		}
		err := drawimg.NewRenderer(w).Render(q.W, q.H, q.DPI, c)
		switch {
		case err == nil && s >= 1 && bytes.Equal(w.buf.Bytes(), one.buf.Bytes()[:n]):
			caps = append(caps, "ok")
		case err == nil:
			caps = append(caps, "silent")
		case errors.Is(err, errWriter):
			caps = append(caps, "reported")
		default:
			caps = append(caps, "other: "+err.Error())
		}
	}
	out["caps"] = caps
	return out
}

// pictureMode: the picture the library makes of an expression.
func pictureMode(raw json.RawMessage) interface{} {
	var q struct {
		Set       string
		S         []byte
		Size, DPI float64
	}
	must(json.Unmarshal(raw, &q))
	buf := new(bytes.Buffer)
	if err := mtex.Render(drawimg.NewRenderer(buf), string(q.S), q.Size, q.DPI, fontSet(q.Set)); err != nil {
		return node{"err": err.Error()}
	}
	return node{"img": imageOf(buf.Bytes())}
}

// pngMode decodes a file.
func init() {
	modes["png"] = func(raw json.RawMessage) interface{} {
		var q struct{ File string }
		must(json.Unmarshal(raw, &q))
		b, err := os.ReadFile(q.File)
		if err != nil {
			return node{"bad": err.Error()}
		}
		// nothing but the image may be in the file
		r := bytes.NewReader(b)
		if _, err := png.Decode(r); err != nil {
			return node{"bad": err.Error()}
		}
		if r.Len() != 0 {
			return node{"bad": "more than an image in the file"}
		}
		return imageOf(b)
	}
}
