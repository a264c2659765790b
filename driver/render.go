package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"image/color"
	"image/png"
	"sync"
	"unicode/utf8"

	"github.com/go-fonts/dejavu/dejavusans"
	"github.com/go-fonts/dejavu/dejavusansbold"
	"github.com/go-fonts/dejavu/dejavusansboldoblique"
	"github.com/go-fonts/dejavu/dejavusansoblique"
	"github.com/go-fonts/stix/stix2mathregular"
	"github.com/go-fonts/stix/stix2textbold"
	"github.com/go-fonts/stix/stix2textbolditalic"
	"github.com/go-fonts/stix/stix2textitalic"
	"github.com/go-fonts/stix/stix2textregular"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/gobolditalic"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/sfnt"
)

func init() {
	modes["fonttab"] = fontTab
	modes["render"] = renderMode
}

func parseFont(raw []byte) *sfnt.Font {
	f, err := sfnt.Parse(raw)
	must(err)
	return f
}

func parseFonts(def, rm, it, bf, bfit []byte) *ttf.Fonts {
	return &ttf.Fonts{Default: parseFont(def), Rm: parseFont(rm), It: parseFont(it), Bf: parseFont(bf), BfIt: parseFont(bfit)}
}

var (
	setsMu sync.Mutex
	sets   = map[string]*ttf.Fonts{}
)

// fontSet returns the named set; "nil" is the set used for no set at all.
func fontSet(name string) *ttf.Fonts {
	setsMu.Lock()
	defer setsMu.Unlock()
	if s, ok := sets[name]; ok {
		return s
	}
	var s *ttf.Fonts
	switch name {
	case "nil", "go":
		s = parseFonts(goregular.TTF, goregular.TTF, goitalic.TTF, gobold.TTF, gobolditalic.TTF)
	case "lib":
		s = liberation.Fonts()
	case "lm":
		s = lm.Fonts()
	case "stix":
		s = parseFonts(stix2textregular.TTF, stix2mathregular.TTF, stix2textitalic.TTF, stix2textbold.TTF, stix2textbolditalic.TTF)
	case "dejavu":
		s = parseFonts(dejavusans.TTF, dejavusans.TTF, dejavusansoblique.TTF, dejavusansbold.TTF, dejavusansboldoblique.TTF)
	case "mix":
		s = &ttf.Fonts{Default: liberation.Fonts().Rm, Rm: liberation.Fonts().Rm, It: lm.Fonts().It, Bf: parseFont(stix2textbold.TTF), BfIt: parseFont(gobolditalic.TTF)}
	default:
		panic("unknown font set " + name)
	}
	sets[name] = s
	return s
}

func psName(f *sfnt.Font) string {
	if f == nil {
		return "(nil)"
	}
	s, err := f.Name(nil, sfnt.NameIDPostScript)
	if err != nil {
		return "error: " + err.Error()
	}
	return s
}

// slotOf names the font of the set that f is.
func slotOf(set string, f *sfnt.Font) string {
	fs := fontSet(set)
	for _, x := range []struct {
		n string
		f *sfnt.Font
	}{{"rm", fs.Rm}, {"it", fs.It}, {"bf", fs.Bf}, {"bfit", fs.BfIt}, {"default", fs.Default}} {
		if f == x.f || (set == "nil" && f != nil && psName(f) == psName(x.f)) {
			return x.n
		}
	}
	return "other:" + psName(f)
}

// fontTab: what fresh backends over a set answer at a size that makes all
// metrics whole numbers.
func fontTab(raw json.RawMessage) interface{} {
	var req struct {
		Set  string
		Den  float64
		Syms [][]byte
		Kern bool
	}
	must(json.Unmarshal(raw, &req))
	fs := fontSet(req.Set)
	type rec struct {
		K string
		M [8]float64
	}
	var tab []rec
	for _, s := range req.Syms {
		for _, ty := range []string{"it", "rm"} {
			for _, m := range []bool{true, false} {
				be := ttf.NewFrom(drawtex.New(), fs)
				me := be.Metrics(string(s), font.Font{Name: "default", Size: req.Den, Type: ty}, 72, m)
				k := string(s) + "|" + ty + "|t"
				if m {
					k = string(s) + "|" + ty + "|m"
				}
				tab = append(tab, rec{k, [8]float64{me.Advance, me.Width, me.Height, me.Iceberg, me.XMin, me.XMax, me.YMin, me.YMax}})
			}
		}
	}
	type kern struct {
		A, B, TA, TB string
		V            float64
	}
	kerns := []kern{}
	if req.Kern {
		be := ttf.NewFrom(drawtex.New(), fs)
		for _, a := range req.Syms {
			for _, b := range req.Syms {
				for _, ta := range []string{"it", "rm"} {
					for _, tb := range []string{"it", "rm"} {
						v := be.Kern(font.Font{Name: "default", Size: req.Den, Type: ta}, string(a),
							font.Font{Name: "default", Size: req.Den, Type: tb}, string(b), 72)
						if v != 0 {
							kerns = append(kerns, kern{string(a), string(b), ta, tb, v})
						}
					}
				}
			}
		}
	}
	be := ttf.NewFrom(drawtex.New(), fs)
	return node{"tab": tab, "kerns": kerns, "thick": be.UnderlineThickness(font.Font{Name: "default", Size: req.Den, Type: "rm"}, 72)}
}

var errRenderer = errors.New("the renderer of the test failed")

// recRenderer records the calls it gets.
type recRenderer struct {
	set   string
	fail  bool
	calls []node
	last  *drawtex.Canvas
}

func opsOf(set string, c *drawtex.Canvas) []interface{} {
	out := []interface{}{}
	for _, op := range c.Ops() {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			r, _ := utf8.DecodeRuneInString(op.Glyph.Symbol)
			num_ := "?"
			if op.Glyph.Font != nil {
				idx, err := op.Glyph.Font.GlyphIndex(nil, r)
				num_ = "bad"
				if err == nil && idx == op.Glyph.Num {
					num_ = "ok"
				}
			}
			out = append(out, []interface{}{"g", []rune(op.Glyph.Symbol), slotOf(set, op.Glyph.Font), num(op.Glyph.Size), num(op.X), num(op.Y), num_})
		case drawtex.RectOp:
			out = append(out, []interface{}{"r", num(op.X1), num(op.Y1), num(op.X2), num(op.Y2)})
		default:
			out = append(out, []interface{}{"?"})
		}
	}
	return out
}

func (r *recRenderer) Render(w, h, dpi float64, cnv *drawtex.Canvas) error {
	r.calls = append(r.calls, node{"w": num(w), "h": num(h), "dpi": num(dpi), "ops": opsOf(r.set, cnv)})
	r.last = cnv
	if r.fail {
		return errRenderer
	}
	return nil
}

// renderMode runs a session of requests.
func renderMode(raw json.RawMessage) interface{} {
	var req struct {
		Reqs []struct {
			Set       string
			S         []byte
			Size, DPI float64
			Fail      bool
			Image     bool
		}
	}
	must(json.Unmarshal(raw, &req))
	outs := []node{}
	var recs []*recRenderer
	for _, q := range req.Reqs {
		rec := &recRenderer{set: q.Set, fail: q.Fail, calls: []node{}}
		var fs *ttf.Fonts
		if q.Set != "nil" {
			fs = fontSet(q.Set)
		}
		err := mtex.Render(rec, string(q.S), q.Size, q.DPI, fs)
		o := node{"calls": rec.calls, "err": ""}
		if err != nil {
			o["err"] = err.Error()
			o["is"] = errors.Is(err, errRenderer)
		}
		outs = append(outs, o)
		recs = append(recs, rec)
		if q.Image {
			buf := new(bytes.Buffer)
			if err := mtex.Render(drawimg.NewRenderer(buf), string(q.S), q.Size, q.DPI, fs); err != nil {
				o["imgerr"] = err.Error()
			} else {
				o["img"] = imageOf(buf.Bytes())
			}
		}
	}
	// what a renderer was given stays what it was
	for i, r := range recs {
		if r.last != nil {
			outs[i]["later"] = opsOf(r.set, r.last)
		}
	}
	return node{"outs": outs}
}

// imageOf decodes a PNG: size, opacity of every pixel, and whether every
// pixel is black.
func imageOf(b []byte) interface{} {
	img, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		return node{"bad": err.Error()}
	}
	r := img.Bounds()
	alpha := make([]byte, 0, r.Dx()*r.Dy())
	black := true
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			c := color.NRGBA64Model.Convert(img.At(x, y)).(color.NRGBA64)
			alpha = append(alpha, byte(c.A>>8))
			if c.A != 0 && (c.R|c.G|c.B) != 0 {
				black = false
			}
		}
	}
	return node{"w": r.Dx(), "h": r.Dy(), "x0": r.Min.X, "y0": r.Min.Y, "alpha": alpha, "black": black}
}
