// The vector drawing of the window: where it has marks.
package main

import (
	"bytes"
	"image"
	"image/draw"
	"image/png"
	"time"

	"gioui.org/io/system"
	"gioui.org/layout"
	"gioui.org/unit"

	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/mtex"
)

func (w *vWin) submit(s string) {
	w.ui.Editor.SetText(s)
	w.ui.Button.Click()
	w.frame()
	w.frame()
}

// see is what the window looks like when nothing moves.
func (w *vWin) see() image.Image {
	w.now = w.now.Add(time.Minute)
	w.frame()
	w.now = w.now.Add(time.Minute)
	w.ops.Reset()
	gtx := layout.NewContext(&w.ops, system.FrameEvent{
		Now: w.now, Metric: unit.Metric{PxPerDp: w.s, PxPerSp: w.s},
		Size: image.Pt(w.w, w.h), Queue: &w.r,
	})
	w.ui.Layout(gtx)
	w.r.Frame(&w.ops)
	_, img := vShot(&w.ops, w.w, w.h)
	return img
}

func vVector(q vReq) map[string]interface{} {
	if q.HasPic {
		buf := new(bytes.Buffer)
		if err := mtex.Render(drawimg.NewRenderer(buf), string(q.Pic), 16, 256, liberation.Fonts()); err != nil {
			return map[string]interface{}{"pic": nil, "err": err.Error()}
		}
		img, err := png.Decode(buf)
		if err != nil {
			return map[string]interface{}{"pic": nil, "err": err.Error()}
		}
		return map[string]interface{}{"pic": map[string]interface{}{"w": img.Bounds().Dx(), "h": img.Bounds().Dy(), "marks": vMarks(img, nil, 4), "pix": vMarks(img, nil, 1)}}
	}
	wins := make([]*vWin, q.Wins)
	var obs []vObs
	for i := range wins {
		wins[i] = vNewWin()
		obs = append(obs, vObs{K: "edit", T: []byte(wins[i].ui.Editor.Text()), Win: i})
	}
	for _, e := range q.Events {
		w := wins[e.Win]
		switch e.K {
		case "submit":
			w.submit(string(e.T))
		case "edit":
			w.ui.Editor.SetText(string(e.T))
			w.frame()
		case "frame":
			w.frame()
			continue
		case "size":
			w.w, w.h, w.s = e.W, e.H, e.S
			continue
		}
		obs = append(obs, vObs{K: e.K, T: e.T, Win: e.Win})
	}
	// the drawing is what goes away when there is nothing to draw
	shots := make([]image.Image, len(wins))
	for i, w := range wins {
		shots[i] = w.see()
	}
	for i, w := range wins {
		s, pic := w.ui.Editor.Text(), vHash(w.ui.Image)
		w.submit("\\foo")
		w.ui.Editor.SetText(s)
		b := w.see()
		if shots[i] == nil || b == nil {
			return map[string]interface{}{"obs": obs, "shots": false}
		}
		obs = append(obs, vObs{K: "see", Win: i, Marks: vMarks(shots[i], b, 4), Pix: vMarks(shots[i], b, 1), Pic: pic})
		if vHash(w.ui.Image) != pic {
			return map[string]interface{}{"obs": obs, "panic": "an expression without a picture changes the one in the window"}
		}
	}
	return map[string]interface{}{"obs": obs, "shots": true}
}

// vMarks: [x, y, ink] of the cells of n x n pixels that differ
func vMarks(a, b image.Image, n int) [][3]int {
	res := [][3]int{}
	r := a.Bounds()
	grey := func(m image.Image) []uint8 {
		g := image.NewGray(r)
		for i := range g.Pix {
			g.Pix[i] = 255
		}
		if m != nil {
			draw.Draw(g, r, m, r.Min, draw.Over)
		}
		return g.Pix
	}
	ga, gb := grey(a), grey(b)
	w, h := r.Dx(), r.Dy()
	for y := 0; y < h; y += n {
		for x := 0; x < w; x += n {
			d := 0
			for j := y; j < y+n && j < h; j++ {
				for i := x; i < x+n && i < w; i++ {
					d += int(gb[j*w+i]) - int(ga[j*w+i])
				}
			}
			if d != 0 {
				res = append(res, [3]int{x / n, y / n, d})
			}
		}
	}
	return res
}
