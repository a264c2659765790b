F='cmd/mtex-render/gio.go'
PRE='''package main

import (
	"bytes"
	"fmt"
	"image"
	"image/png"
	"os"
	"time"

	"gioui.org/io/router"
	"gioui.org/io/system"
	"gioui.org/layout"
	"gioui.org/op"
	"gioui.org/unit"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/mtex"
)

type zwin struct {
	ui  *UI
	r   router.Router
	ops op.Ops
	s   float32
}

func znew() *zwin { return &zwin{ui: NewUI(), s: 1} }
func (w *zwin) frame() {
	w.ops.Reset()
	gtx := layout.NewContext(&w.ops, system.FrameEvent{Now: time.Now(), Metric: unit.Metric{PxPerDp: w.s, PxPerSp: w.s},
		Size: image.Pt(int(900*w.s), int(1200*w.s)), Queue: &w.r})
	w.ui.Layout(gtx)
	w.r.Frame(&w.ops)
}
func (w *zwin) submit(s string) { w.ui.Editor.SetText(s); w.ui.Button.Click(); w.frame(); w.frame() }
func (w *zwin) shows(s string) {
	buf := new(bytes.Buffer)
	if err := mtex.Render(drawimg.NewRenderer(buf), s, 16, 256, liberationFonts()); err != nil {
		panic(err)
	}
	want, err := png.Decode(buf)
	if err != nil {
		panic(err)
	}
	got := w.ui.Image
	same := got != nil && got.Bounds() == want.Bounds()
	for y := 0; same && y < want.Bounds().Dy(); y++ {
		for x := 0; same && x < want.Bounds().Dx(); x++ {
			r, g, b, a := got.At(x, y).RGBA()
			R, G, B, A := want.At(x, y).RGBA()
			same = r == R && g == G && b == B && a == A
		}
	}
	if !same {
		fmt.Printf("the window does not show %q\\n", s)
		os.Exit(1)
	}
}

func init() {
	if os.Getenv("ZZDEMO") == "" {
		return
	}
	w := znew()
	w.frame()
	w.frame()
	_ = w
'''
END='''
	os.Exit(0)
}
'''
def S(id,needs,breaks,edits,body): return dict(id=id,property='C26',needs=needs,breaks=breaks,edits=[(F,a,b) for a,b in edits],demo=PRE+body+END,gui=True)
SEEDS=[
S('c26-double-click','two presses delivered before one frame','a double click on Render is taken for none',
 [('				for range ui.Button.Clicks() {\n					ui.expr = ui.Editor.Text()\n				}','				if n := len(ui.Button.Clicks()); n%2 == 1 {\n					ui.expr = ui.Editor.Text()\n				}')],
 '	w.ui.Editor.SetText("$x$"); w.ui.Button.Click(); w.ui.Button.Click(); w.frame(); w.frame()\n	w.shows("$x$")'),
S('c26-same-length','a submission with as many characters as the one shown','a submission as long as the shown expression is not drawn',
 [('	screen bool\n','	screen bool\n	drawn  int\n'),
  ('	const dpi = 256\n	o := new(bytes.Buffer)','	const dpi = 256\n	if ui.drawn == len(ui.expr) {\n		return nil\n	}\n	o := new(bytes.Buffer)'),
  ('	ui.Image, err = png.Decode(o)\n	if err != nil {\n		return err\n	}','	ui.Image, err = png.Decode(o)\n	if err != nil {\n		return err\n	}\n	ui.drawn = len(ui.expr)')],
 '	w.submit("$xy$")\n	w.submit("$ab$")\n	w.shows("$ab$")'),
S('c26-blank-on-error','an expression that cannot be rendered, submitted after one that can','a bad expression wipes the picture',
 [('		fnt,\n	)\n	if err != nil {\n		return err\n	}\n	ui.Image,','		fnt,\n	)\n	if err != nil {\n		ui.Image = image.NewRGBA(image.Rect(0, 0, 1, 1))\n		return err\n	}\n	ui.Image,')],
 '	w.submit("$xy$")\n	w.submit("\\\\foo")\n	w.shows("$xy$")'),
S('c26-shared-cache','two windows that show the same expression','the memory of the drawn expression is shared by all windows, so the second one stays as it was',
 [('const useLiberation = true\n','const useLiberation = true\n\nvar drawn string\n'),
  ('	const dpi = 256\n	o := new(bytes.Buffer)','	const dpi = 256\n	if drawn == ui.expr {\n		return nil\n	}\n	o := new(bytes.Buffer)'),
  ('	ui.Image, err = png.Decode(o)\n	if err != nil {\n		return err\n	}','	ui.Image, err = png.Decode(o)\n	if err != nil {\n		return err\n	}\n	drawn = ui.expr')],
 '	v := znew()\n	v.frame()\n	w.submit("$xy$")\n	v.submit("$xy$")\n	v.shows("$xy$")'),
S('c26-hidpi','a screen with more than one pixel per unit','the resolution of the picture follows the screen',
 [('				_ = ui.imgRender()','				_ = ui.imgRender(float64(gtx.Metric.PxPerDp))'),
  ('func (ui *UI) imgRender() error {\n	const dpi = 256','func (ui *UI) imgRender(scale float64) error {\n	dpi := 256 * scale')],
 '	w.s = 2\n	w.submit("$xy$")\n	w.shows("$xy$")'),
S('c26-retry','a failed submission, then an edit without a press','after a failure the text is submitted again by every frame',
 [('				_ = ui.imgRender()','				if err := ui.imgRender(); err != nil {\n					ui.expr = ui.Editor.Text()\n				}')],
 '	w.submit("$xy$")\n	w.submit("\\\\foo")\n	w.ui.Editor.SetText("$z$")\n	w.frame(); w.frame(); w.frame()\n	w.shows("$xy$")'),
S('c26-gio-panic','an expression that cannot be rendered','the vector drawing of a bad expression ends the program',
 [('				_ = ui.render(gtx)','				if err := ui.render(gtx); err != nil {\n					panic(err)\n				}')],
 '	w.submit("$\\\\frac{a}$")\n	w.submit("$b$")\n	w.shows("$b$")'),
S('c26-click-before-text','a change of the text between two frames after which the button is pressed','the submission is the text of the previous frame',
 [('	screen bool\n','	screen bool\n	last   string\n'),
  ('					ui.expr = ui.Editor.Text()\n				}\n				return material','					ui.expr = ui.last\n				}\n				ui.last = ui.Editor.Text()\n				return material')],
 '	w.ui.Editor.SetText("$x$"); w.frame()\n	w.submit("$xy$")\n	w.shows("$xy$")'),
S('c26-empty-text','an empty editor after another text','an empty submission counts as the default expression',
 [('	const dpi = 256\n	o := new(bytes.Buffer)','	const dpi = 256\n	if ui.expr == "" {\n		ui.expr = NewUI().expr\n	}\n	o := new(bytes.Buffer)')],
 '	w.submit("$xy$")\n	w.submit("")\n	w.shows("$xy$")'),
S('c26-fonts-after-error','a failed submission before a good one','after a failure the other fonts are used',
 [('	screen bool\n','	screen bool\n	failed bool\n'),
  ('	if useLiberation {\n		fnt = liberationFonts()\n	}\n	err := mtex','	if useLiberation && !ui.failed {\n		fnt = liberationFonts()\n	}\n	err := mtex'),
  ('		fnt,\n	)\n	if err != nil {\n		return err','		fnt,\n	)\n	ui.failed = err != nil\n	if err != nil {\n		return err'),
  ],
 '	w.submit("\\\\foo")\n	w.ui.Editor.SetText("$ab$"); w.ui.Button.Click(); w.frame()\n	w.shows("$ab$")'),
]
