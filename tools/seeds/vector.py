exec(open('/verif/tools/seeds/gui.py').read().split('\nSEEDS')[0])
VPRE='''package main

import (
	"fmt"
	"image"
	"os"
	"os/exec"
	"time"

	"gioui.org/gpu/headless"
	"gioui.org/io/router"
	"gioui.org/io/system"
	"gioui.org/layout"
	"gioui.org/op"
	"gioui.org/unit"
)

type zvec struct {
	ui  *UI
	r   router.Router
	ops op.Ops
	s   float32
	now time.Time
}

func zopen() *zvec { return &zvec{ui: NewUI(), s: 1, now: time.Unix(1e9, 0)} }

func (z *zvec) frame() {
	z.now = z.now.Add(time.Minute)
	z.ops.Reset()
	gtx := layout.NewContext(&z.ops, system.FrameEvent{Now: z.now, Metric: unit.Metric{PxPerDp: z.s, PxPerSp: z.s},
		Size: image.Pt(1200, int(1200*z.s)), Queue: &z.r})
	z.ui.Layout(gtx)
	z.r.Frame(&z.ops)
}

func (z *zvec) submit(s string) {
	z.ui.Editor.SetText(s)
	z.ui.Button.Click()
	z.frame()
	z.frame()
}

func (z *zvec) shot() image.Image {
	z.frame()
	z.frame()
	w, err := headless.NewWindow(1200, int(1200*z.s))
	if err != nil {
		panic(err)
	}
	defer w.Release()
	if err := w.Frame(&z.ops); err != nil {
		panic(err)
	}
	m, err := w.Screenshot()
	if err != nil {
		panic(err)
	}
	return m
}

// marks counts the dark pixels of the vector drawing in rows of its box and
// tells its width and height: it is what goes away with a bad expression.
func (z *zvec) marks() (n, w, h int, rows, cols []int) {
	a := z.shot()
	s := z.ui.Editor.Text()
	z.submit("\\\\foo")
	z.ui.Editor.SetText(s)
	z.frame()
	b := z.shot()
	x0, y0, x1, y1 := 1<<30, 1<<30, -1, -1
	at := map[image.Point]bool{}
	for y := 0; y < a.Bounds().Dy(); y++ {
		for x := 0; x < a.Bounds().Dx(); x++ {
			_, _, _, p := a.At(x, y).RGBA()
			_, _, _, q := b.At(x, y).RGBA()
			if p > q+0xb000 {
				n++
				at[image.Pt(x, y)] = true
				if x < x0 { x0 = x }
				if x > x1 { x1 = x }
				if y < y0 { y0 = y }
				if y > y1 { y1 = y }
			}
		}
	}
	if n == 0 {
		return
	}
	w, h = x1-x0+1, y1-y0+1
	rows, cols = make([]int, h), make([]int, w)
	for p := range at {
		rows[p.Y-y0]++
		cols[p.X-x0]++
	}
	return
}

func near(a, b, d int) bool { return a-b <= d && b-a <= d }

func ok(b bool, a ...interface{}) {
	if !b {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func of(s string) (n, w, h int, rows, cols []int) { z := zopen(); z.frame(); z.submit(s); return z.marks() }

func init() {
	if os.Getenv("ZZDEMO") == "" {
		return
	}
	if os.Getenv("ZZSUB") == "" {
		// (the toolkit wants this variable before it starts)
		c := exec.Command("/proc/self/exe")
		c.Env = append(os.Environ(), "EGL_PLATFORM=surfaceless", "ZZSUB=1")
		c.Stdout = os.Stdout
		c.Stderr = os.Stderr
		if c.Run() != nil {
			os.Exit(1)
		}
		os.Exit(0)
	}
'''
def L(id,needs,breaks,edits,body): return dict(id=id,property='C29',needs=needs,breaks=breaks,edits=[(F,a,b) for a,b in edits],demo=VPRE+body+END,gui=True)
SEEDS=[
L('c29-upright','a letter in math','slanted glyphs are drawn upright',
 [('	if tex.Glyph.Metrics.Slanted {','	if tex.Glyph.Metrics.Slanted && tex.Glyph.Size > 100 {')],
 '	_, a, _, _, _ := of("$f$")\n	_, b, _, _, _ := of("f")\n	ok(!near(a, b, 2), "slanted and upright are as wide:", a, b)'),
L('c29-slanted-rest','text or digits after a letter in math','once a glyph is slanted all that follow are',
 [('	th  *material.Theme\n	ft  *ttf.Fonts\n','	th  *material.Theme\n	ft  *ttf.Fonts\n	style text.Style\n'),
  ('		lbl.Font.Style = text.Italic\n	}','		r.style = text.Italic\n	}\n	lbl.Font.Style = r.style')],
 '	n, _, _, _, c := of("$x$ l")\n	_, _, _, _, d := of("l")\n	_ = n\n	last := 0\n	for i := len(c) - 1; i >= 0 && c[i] > 0; i-- { last++ }\n	ok(near(last, len(d), 1), "an upright l is", len(d), "wide, after $x$", last)'),
L('c29-rule-clip','glyphs drawn after a rule','a rule cuts off all that is drawn after it',
 [('	defer op.Save(r.gtx.Ops).Load()\n\n	var p clip.Path','	var p clip.Path')],
 '	n, _, _, _, _ := of("$\\\\frac{a}{b}c$")\n	m, _, _, _, _ := of("$\\\\frac{a}{b}$")\n	k, _, _, _, _ := of("$c$")\n	ok(near(n, m+k, 100), n, "pixels instead of", m, "+", k)'),
L('c29-thin-rules','a rule in an expression','rules are drawn half as thick',
 [('			r.drawRect(dpi, opTex)','			opTex.Y2 = (opTex.Y1 + opTex.Y2) / 2\n			r.drawRect(dpi, opTex)')],
 '	_, w, _, rows, _ := of("$\\\\frac{mmmm}{mmmm}$")\n	k := 0\n	for _, n := range rows {\n		if n >= w*9/10 { k++ }\n	}\n	ok(k >= 3, "the rule is thinner than three pixels:", k)'),
L('c29-one-size','an expression with glyphs in script size','all glyphs have the size of the text',
 [('unit.Px(float32(tex.Glyph.Size*dpi))','unit.Px(r.th.TextSize.V*float32(dpi))')],
 '	_, _, _, _, c := of("$\\\\frac{M}{M}$")\n	n, _, _, _, _ := of("$M$")\n	m, _, _, _, _ := of("$\\\\frac{M}{M}$")\n	_ = c\n	ok(m < 2*n, m, n)'),
L('c29-repeated-glyph','an expression with the same glyph twice in a row','a glyph that repeats the one before is not drawn',
 [('	dpi /= 72\n	for _, opTex := range c.Ops() {','	dpi /= 72\n	last := ""\n	for _, opTex := range c.Ops() {'),
  ('			r.drawGlyph(dpi, opTex)','			if opTex.Glyph.Symbol != last || len(last) > 1 {\n				r.drawGlyph(dpi, opTex)\n			}\n			last = opTex.Glyph.Symbol')],
 '	n, _, _, _, _ := of("$xx$")\n	m, _, _, _, _ := of("$x$")\n	ok(near(n, 2*m, 30), n, m)'),
L('c29-editor-text','a text edited after it was submitted','the vector drawing follows the editor',
 [('		dst,\n		ui.expr,\n		float64(ui.Theme.TextSize.V),\n		dpi,\n		dst.ft','		dst,\n		ui.Editor.Text(),\n		float64(ui.Theme.TextSize.V),\n		dpi,\n		dst.ft')],
 '	z := zopen()\n	z.frame()\n	z.submit("$x$")\n	z.ui.Editor.SetText("\\\\foo")\n	z.frame()\n	n, _, _, _, _ := z.marks()\n	ok(n > 0, "nothing is drawn")'),
L('c29-hidpi','a screen with more than one pixel per unit','the size of the glyphs follows the screen, their places do not',
 [('unit.Px(float32(tex.Glyph.Size*dpi))','unit.Dp(float32(tex.Glyph.Size*dpi))')],
 '	z := zopen()\n	z.s = 2\n	z.frame()\n	z.submit("$x$")\n	n, _, _, _, _ := z.marks()\n	m, _, _, _, _ := of("$x$")\n	ok(near(n, m, 40), n, m)'),
L('c29-wrapped','an expression wider than half the window','glyphs far to the right start again at the left',
 [('func (*gioRenderer) pt(x, y float64) f32.Point {\n','func (r *gioRenderer) pt(x, y float64) f32.Point {\n	if max := float64(r.gtx.Constraints.Max.X) / 2; x > max {\n		x -= max\n	}\n')],
 '	_, w, _, _, _ := of("$mmmmmmmmmmmmmmmmmmmmmmmm$")\n	_, v, _, _, _ := of("$mmmmmmmm$")\n	ok(w > 5*v/2, w, v)'),
L('c29-other-fonts','any expression with letters in math','the toolkit draws with other fonts than the picture',
 [('	if useLiberation {\n		fonts = liberationCollection()\n		r.th','	if useLiberation {\n		r.th')],
 '	n, w, _, _, _ := of("$mmmmmmmm$")\n	ok(near(w, 325, 8) && n > 2700, n, w)'),
L('c29-shared-window','two windows with different expressions','the drawing of the window drawn first is kept for all',
 [('const useLiberation = true\n','const useLiberation = true\n\nvar cached = map[int]string{}\n'),
  ('	dst := newGioRenderer(gtx, ui.Theme, ui.expr)\n	err := mtex.Render(\n		dst,\n		ui.expr,','	if _, ok := cached[len(ui.expr)]; !ok {\n		cached[len(ui.expr)] = ui.expr\n	}\n	dst := newGioRenderer(gtx, ui.Theme, ui.expr)\n	err := mtex.Render(\n		dst,\n		cached[len(ui.expr)],')],
 '	z := zopen()\n	z.frame()\n	z.submit("$mmm$")\n	n, _, _, _, _ := of("$...$")\n	ok(n < 200, n)'),
L('c29-grey-accents','an expression in a window after one without a picture','after a failed submission the drawing is grey',
 [('	screen bool\n','	screen bool\n	failed bool\n'),
  ('	dst := newGioRenderer(gtx, ui.Theme, ui.expr)\n','	dst := newGioRenderer(gtx, ui.Theme, ui.expr)\n	if ui.failed {\n		dst.col.A = 128\n	}\n'),
  ('		dst.ft,\n	)\n	if err != nil {\n		return err','		dst.ft,\n	)\n	if err != nil {\n		ui.failed = true\n		return err')],
 '	z := zopen()\n	z.frame()\n	z.submit("}")\n	z.submit("$x$")\n	n, _, _, _, _ := z.marks()\n	ok(n > 100, n)'),
]
