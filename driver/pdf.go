package main

import (
	"encoding/json"
	"reflect"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawpdf"
	"github.com/go-latex/latex/font/liberation"
)

func init() { modes["pdf"] = pdfMode }

// pdfMode: a session of documents written one after the other.
func pdfMode(raw json.RawMessage) interface{} {
	var q struct {
		Writes []struct {
			File string
			W, H float64
			Ops  []struct {
				K string
				V [4]float64
			}
			Canvas int
		}
	}
	must(json.Unmarshal(raw, &q))
	cvs := map[int]*drawtex.Canvas{}
	var res []interface{}
	for _, w := range q.Writes {
		c := cvs[w.Canvas]
		if c == nil {
			c = drawtex.New()
			cvs[w.Canvas] = c
		}
		for _, o := range w.Ops {
			if o.K == "rect" {
				c.RenderRectFilled(o.V[0], o.V[1], o.V[2], o.V[3])
			} else {
				c.RenderGlyph(o.V[0], o.V[1], drawtex.Glyph{Font: liberation.Fonts().Rm, Size: o.V[2], Symbol: "x", Num: 36})
			}
		}
		before := append([]drawtex.Op(nil), c.Ops()...)
		err := drawpdf.Write(w.File, w.W, w.H, c)
		r := map[string]interface{}{"ok": err == nil, "same": reflect.DeepEqual(before, append([]drawtex.Op(nil), c.Ops()...))}
		if err != nil {
			r["err"] = err.Error()
		}
		res = append(res, r)
	}
	return map[string]interface{}{"out": res}
}
