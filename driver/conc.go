package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/go-fonts/stix/stix2mathregular"
	"github.com/go-fonts/stix/stix2textbold"
	"github.com/go-fonts/stix/stix2textbolditalic"
	"github.com/go-fonts/stix/stix2textitalic"
	"github.com/go-fonts/stix/stix2textregular"
	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
)

func init() { modes["conc"] = concMode }

type concCall struct {
	Op        string
	S         []byte
	Set       string
	Size, DPI float64
}

// concRes is what a call left, raw: it is looked at when all is over.
type concRes struct {
	tree   ast.Node
	err    error
	box    tex.Node
	cnv    *drawtex.Canvas
	rec    *plainRenderer
	img    []byte
	fonts  *ttf.Fonts
	panic_ interface{}
	t0, t1 time.Duration
}

type plainRenderer struct {
	n         int
	w, h, dpi float64
	cnv       *drawtex.Canvas
}

func (r *plainRenderer) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	r.n++
	r.w, r.h, r.dpi, r.cnv = w, h, dpi, c
	return nil
}

func concFonts(set string, own *ttf.Fonts) *ttf.Fonts {
	switch set {
	case "lm":
		return lm.Fonts()
	case "lib":
		return liberation.Fonts()
	case "own":
		return own
	}
	return nil
}

func (c *concCall) run(own *ttf.Fonts, start time.Time) (r concRes) {
	r.t0 = time.Since(start)
	defer func() {
		r.panic_ = recover()
		r.t1 = time.Since(start)
	}()
	switch c.Op {
	case "parse":
		r.tree, r.err = latex.ParseExpr(string(c.S))
	case "typeset":
		r.cnv = drawtex.New()
		fs := concFonts(c.Set, own)
		var be *ttf.Backend
		if fs == nil {
			be = ttf.New(r.cnv)
		} else {
			be = ttf.NewFrom(r.cnv, fs)
		}
		r.box, r.err = mtex.Parse(string(c.S), c.Size, c.DPI, be)
		if r.err == nil {
			var sh tex.Ship
			sh.Call(0, 0, r.box.(tex.Tree))
		}
	case "render":
		r.rec = new(plainRenderer)
		r.err = mtex.Render(r.rec, string(c.S), c.Size, c.DPI, concFonts(c.Set, own))
	case "image":
		buf := new(bytes.Buffer)
		r.err = mtex.Render(drawimg.NewRenderer(buf), string(c.S), c.Size, c.DPI, concFonts(c.Set, own))
		r.img = buf.Bytes()
	case "fonts":
		r.fonts = concFonts(c.Set, own)
	}
	return r
}

func canvasText(c *drawtex.Canvas) []interface{} {
	out := []interface{}{}
	if c == nil {
		return out
	}
	for _, op := range c.Ops() {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			g := op.Glyph
			out = append(out, []interface{}{num(op.X), num(op.Y), psName(g.Font), num(g.Size), g.Postscript, g.Symbol, int(g.Num), metricsOf(g.Metrics)})
		case drawtex.RectOp:
			out = append(out, []interface{}{num(op.X1), num(op.Y1), num(op.X2), num(op.Y2)})
		}
	}
	return out
}

// look makes a text of what a call left.
func (r *concRes) look(c *concCall, first map[string]*ttf.Fonts) interface{} {
	o := node{}
	if r.panic_ != nil {
		o["panic"] = fmt.Sprint(r.panic_)
		return o
	}
	if r.err != nil {
		o["err"] = r.err.Error()
	}
	switch c.Op {
	case "parse":
		if r.tree != nil {
			o["tree"] = treeOf(r.tree)
		}
	case "typeset":
		if r.err == nil {
			b := r.box.(tex.Tree)
			o["box"] = []float64{num(b.Width()), num(b.Height()), num(b.Depth())}
			o["ops"] = canvasText(r.cnv)
		}
	case "render":
		o["call"] = []float64{float64(r.rec.n), num(r.rec.w), num(r.rec.h), num(r.rec.dpi)}
		o["ops"] = canvasText(r.rec.cnv)
	case "image":
		h := sha256.Sum256(r.img)
		o["img"] = hex.EncodeToString(h[:])
	case "fonts":
		if r.fonts == nil {
			o["fonts"] = "none"
			break
		}
		o["fonts"] = []string{psName(r.fonts.Default), psName(r.fonts.Rm), psName(r.fonts.It), psName(r.fonts.Bf), psName(r.fonts.BfIt)}
		if first[c.Set] == nil {
			first[c.Set] = r.fonts
		}
		a, b := first[c.Set], r.fonts
		o["same"] = *a == *b
	}
	return o
}

// concMode runs programs of calls, one goroutine each: by a schedule of
// beginnings and ends, or freely.
func concMode(raw json.RawMessage) interface{} {
	var req struct {
		Progs [][]concCall
		Sched [][2]int // (goroutine, 0: begin or 1: end); none: freely
		Procs int
		Full  bool
	}
	must(json.Unmarshal(raw, &req))
	if req.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(req.Procs))
	}
	var own *ttf.Fonts
	for _, p := range req.Progs {
		for _, c := range p {
			if c.Set == "own" && own == nil {
				own = parseFonts(stix2textregular.TTF, stix2mathregular.TTF, stix2textitalic.TTF, stix2textbold.TTF, stix2textbolditalic.TTF)
			}
		}
	}
	n := len(req.Progs)
	res := make([][]concRes, n)
	begin := make([]chan bool, n)
	end := make([]chan bool, n)
	for g := range begin {
		begin[g] = make(chan bool)
		end[g] = make(chan bool)
	}
	free := req.Sched == nil
	start := time.Now()
	all := make(chan bool)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			if free {
				<-all
			}
			for k := range req.Progs[g] {
				if !free {
					<-begin[g]
				}
				res[g] = append(res[g], req.Progs[g][k].run(own, start))
				if !free {
					end[g] <- true
				}
			}
		}(g)
	}
	if free {
		close(all)
	}
	for _, s := range req.Sched {
		if s[1] == 0 {
			begin[s[0]] <- true
		} else {
			<-end[s[0]]
		}
	}
	wg.Wait()
	first := map[string]*ttf.Fonts{}
	out := make([][]node, n)
	for g := range res {
		out[g] = []node{}
		for k := range res[g] {
			r := &res[g][k]
			txt, err := json.Marshal(r.look(&req.Progs[g][k], first))
			must(err)
			h := sha256.Sum256(txt)
			o := node{"r": hex.EncodeToString(h[:8]), "t0": int64(r.t0), "t1": int64(r.t1)}
			if req.Full {
				o["full"] = json.RawMessage(txt)
			}
			out[g] = append(out[g], o)
		}
	}
	return node{"out": out}
}
