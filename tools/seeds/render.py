exec(open('/verif/tools/seeds/front.py').read().split('SEEDS =')[0])
IM=('bytes','errors','fmt','image','image/png','math','os','github.com/go-latex/latex/drawtex','github.com/go-latex/latex/drawtex/drawimg','github.com/go-latex/latex/font/liberation','github.com/go-latex/latex/font/ttf','github.com/go-latex/latex/mtex')
PRE='''
var _ = math.Pi
var _ = image.Black
var _ = errors.New
var _ = liberation.Fonts
type rec struct { n int; w, h, dpi float64; c *drawtex.Canvas; fail error }
func (r *rec) Render(w, h, dpi float64, c *drawtex.Canvas) error { r.n++; r.w, r.h, r.dpi, r.c = w, h, dpi, c; return r.fail }
func call(expr string, size, dpi float64, fonts *ttf.Fonts) (*rec, error) {
	r := new(rec)
	return r, mtex.Render(r, expr, size, dpi, fonts)
}
func pic(w, h, dpi float64, c *drawtex.Canvas) image.Image {
	b := new(bytes.Buffer)
	if err := drawimg.NewRenderer(b).Render(w, h, dpi, c); err != nil { fmt.Println(err); os.Exit(1) }
	m, err := png.Decode(b)
	if err != nil { fmt.Println(err); os.Exit(1) }
	return m
}
func alpha(m image.Image, x, y int) uint32 { _, _, _, a := m.At(x, y).RGBA(); return a >> 8 }
func near(a, b float64) bool { return a-b < 1e-6 && b-a < 1e-6 }
func ok(c bool, what ...interface{}) { if !c { fmt.Println(what...); os.Exit(1) } }
'''
def bd(body): return demo(body, IM) + PRE
CI=('bytes','fmt','image/png','io','os','os/exec','path/filepath','strings')
CPRE='''
var _ = png.Decode
var _ = strings.Join
var _ = io.EOF
var _ = bytes.Equal
func ok(c bool, what ...interface{}) { if !c { fmt.Println(what...); os.Exit(1) } }
var tmp, bin string
func build() {
	tmp = os.Getenv("DEMO_TMP")
	bin = filepath.Join(tmp, "mtex-render")
	out, err := exec.Command("go", "build", "-o", bin, "./cmd/mtex-render").CombinedOutput()
	if err != nil { fmt.Println(string(out)); os.Exit(2) }
}
func tool(args ...string) error {
	cmd := exec.Command(bin, args...)
	cmd.Dir = tmp
	return cmd.Run()
}
'''
def cd(body): return demo('build()\n'+body, CI) + CPRE
R='mtex/render.go'; D='drawtex/drawimg/drawimg.go'; M='cmd/mtex-render/main.go'
SEEDS=[
 dict(id='c18-page-parts', property='C18', needs='a font size of at least twenty points, height and depth with fractions that add up to at most a point',
  breaks='the height and the depth of the page are rounded up separately',
  edits=[(R,'err = dst.Render(w/72, math.Ceil(h+math.Max(d, 0))/72, dpi, canvas)','err = dst.Render(w/72, math.Max(math.Ceil(h+math.Max(d, 0)), math.Trunc(size/20)*(math.Ceil(h)+math.Ceil(d)))/72, dpi, canvas)')],
  demo=bd(r'''for _, e := range []string{"$g$", "$gM$", "$\\sqrt{j}$", "$\\frac{g}{y}$", "$(y)$", "jam"} {
		for z := 20.5; z < 40; z += 1.3 {
			r, err := call(e, z, 72, nil)
			ok(err == nil, err)
			// the page holds everything up to less than a point
			b, _ := call(e, z*1000, 72, nil)
			ok(math.Abs(r.h*72-b.h*72/1000) < 1.02 && r.h*72 > b.h*72/1000-0.02, e, z, r.h*72, b.h*72/1000)
		}
	}''')),
 dict(id='c18-empty', property='C18', needs='an expression that draws nothing',
  breaks='the renderer is not called for an empty drawing',
  edits=[(R,'	w := box.Width()\n','	if len(canvas.Ops()) == 0 {\n		return nil\n	}\n	w := box.Width()\n')],
  demo=bd(r'''r, err := call(`$\quad$`, 12, 72, nil)
	ok(err == nil && r.n == 1, r.n, err)''')),
 dict(id='c18-negative-width', property='C18', needs='an expression narrower than nothing',
  breaks='the width of the page is never less than zero',
  edits=[(R,'	w := box.Width()\n','	w := math.Max(box.Width(), 0)\n')],
  demo=bd(r'''r, err := call(`$\!$`, 12, 72, nil)
	ok(err == nil && r.w < 0, r.w, err)''')),
 dict(id='c18-high-dpi', property='C18', needs='a resolution above 512',
  breaks='the expression is typeset anew for high resolutions: the drawing depends on the resolution',
  edits=[(R,'box, err := Parse(expr, size, 72, backend)','box, err := Parse(expr, size, 72*math.Max(1, math.Floor(dpi/512)), backend)')],
  demo=bd(r'''a, _ := call(`$\frac{a}{b}$`, 12, 72, nil)
	b, _ := call(`$\frac{a}{b}$`, 12, 1200, nil)
	ok(fmt.Sprint(a.c.Ops()) == fmt.Sprint(b.c.Ops()) && a.w == b.w, a.w, b.w)''')),
 dict(id='c18-canvas-reused', property='C18', needs='a renderer that keeps the drawing while another expression is rendered',
  breaks='drawings share the memory of their operations with later drawings',
  edits=[('drawtex/canvas.go','''type Canvas struct {
	ops []Op
}

func New() *Canvas {
	return &Canvas{}
}''','''type Canvas struct {
	ops []Op
}

var scratch = make([]Op, 0, 64)

func New() *Canvas {
	return &Canvas{ops: scratch}
}''')],
  demo=bd(r'''a, _ := call(`$abc$`, 12, 72, nil)
	was := fmt.Sprint(a.c.Ops())
	call(`$\frac{x}{y}$`, 20, 72, nil)
	ok(fmt.Sprint(a.c.Ops()) == was, "changed")''')),
 dict(id='c18-swallow', property='C18', needs='a renderer that fails on an expression without glyphs',
  breaks='the error of a renderer is lost when the page has no height',
  edits=[(R,'	if err != nil {\n		return fmt.Errorf("could not render','	if err != nil && h+d != 0 {\n		return fmt.Errorf("could not render')],
  demo=bd(r'''r := &rec{fail: errors.New("no")}
	ok(mtex.Render(r, `$\quad$`, 12, 72, nil) != nil, "lost")''')),
 dict(id='c22-nearly', property='C22', needs='a width that is less than a hundredth of a pixel more than a whole number',
  breaks='sizes are rounded up only from a hundredth of a pixel on',
  edits=[(D,'ctx = gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))','ctx = gg.NewContext(int(w+0.95), int(math.Ceil(h)))')],
  demo=bd(r'''m := pic(257.0/256, 1, 8, drawtex.New())
	ok(m.Bounds().Dx() == 9, m.Bounds())''')),
 dict(id='c22-snap', property='C22', needs='a resolution below 72',
  breaks='at low resolutions glyphs are moved to whole pixels',
  edits=[(D,'	x := op.X * dpi\n	y := op.Y * dpi\n','	x := op.X * dpi\n	y := op.Y * dpi\n	if dpi < 1 {\n		x, y = math.Floor(x), math.Floor(y)\n	}\n')],
  demo=bd(r'''r, _ := call(`$M$`, 40, 36, liberation.Fonts())
	g := r.c.Ops()[0].(drawtex.GlyphOp).Glyph
	at := func(x float64) *drawtex.Canvas { c := drawtex.New(); c.RenderGlyph(x, 40, g); return c }
	a, b := pic(1, 1, 36, at(2)), pic(1, 1, 36, at(3))
	diff := false
	for x := 0; x < 36; x++ { for y := 0; y < 36; y++ { diff = diff || alpha(a, x, y) != alpha(b, x, y) } }
	ok(diff, "same picture")''')),
 dict(id='c22-reversed', property='C22', needs='a rectangle given from right to left',
  breaks='rectangles given from right to left or bottom to top are not painted',
  edits=[(D,'		case drawtex.RectOp:\n			drawRect','		case drawtex.RectOp:\n			if op.X2 < op.X1 || op.Y2 < op.Y1 {\n				continue\n			}\n			drawRect')],
  demo=bd(r'''c := drawtex.New()
	c.RenderRectFilled(30, 4, 2, 20)
	ok(alpha(pic(1, 1, 72, c), 10, 10) == 255, "blank")''')),
 dict(id='c22-flush', property='C22', needs='a writer that fails',
  breaks='errors of the writer are lost for images that fit a buffer',
  edits=[(D,'	return png.Encode(r.w, ctx.Image())','	buf := bufio.NewWriterSize(r.w, 1<<16)\n	defer buf.Flush()\n	return png.Encode(buf, ctx.Image())'),
         (D,'import (\n	"fmt"','import (\n	"bufio"\n	"fmt"')],
  demo=bd(r'''err := drawimg.NewRenderer(full{}).Render(1, 1, 72, drawtex.New())
	ok(err != nil, "lost")''')+'''
type full struct{}
func (full) Write(p []byte) (int, error) { return 0, errors.New("full") }
'''),
 dict(id='c22-face-cache', property='C22', needs='the same font at the same size at two resolutions',
  breaks='font faces are remembered without their resolution',
  edits=[(D,'''	face, err := opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
		DPI:     dpi,
		Size:    op.Glyph.Size,
		Hinting: font.HintingNone,
	})
''','''	key := faceKey{op.Glyph.Font, op.Glyph.Size}
	facesMu.Lock()
	defer facesMu.Unlock()
	face, err := faces[key], error(nil)
	if face == nil {
		face, err = opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
			DPI:     dpi,
			Size:    op.Glyph.Size,
			Hinting: font.HintingNone,
		})
		faces[key] = face
	}
'''),(D,'	defer face.Close()\n',''),
  (D,'func drawGlyph(','''type faceKey struct {
	font *sfnt.Font
	size float64
}

var (
	facesMu sync.Mutex
	faces   = make(map[faceKey]font.Face)
)

func drawGlyph('''),
  (D,'	"math"\n','	"math"\n	"sync"\n'),(D,'	"golang.org/x/image/font/opentype"\n','	"golang.org/x/image/font/opentype"\n	"golang.org/x/image/font/sfnt"\n')],
  demo=bd(r'''r, _ := call(`$M$`, 10, 72, nil)
	c := drawtex.New()
	c.RenderGlyph(0, 10, r.c.Ops()[0].(drawtex.GlyphOp).Glyph)
	pic(1, 1, 20, c)
	m := pic(1, 1, 720, c)
	n := 0
	for x := 0; x < 720; x++ { for y := 0; y < 720; y++ { if alpha(m, x, y) != 0 { n++ } } }
	ok(n > 500, n)''')),
 dict(id='c22-tall', property='C22', needs='glyphs larger than 64 points',
  breaks='glyphs are never drawn larger than 64 points',
  edits=[(D,'		Size:    op.Glyph.Size,\n','		Size:    math.Min(op.Glyph.Size, 18),\n')],
  demo=bd(r'''r, _ := call(`$M$`, 10, 72, nil)
	g := r.c.Ops()[0].(drawtex.GlyphOp).Glyph
	ink := func(z float64) (n int) {
		c := drawtex.New()
		g.Size = z
		c.RenderGlyph(0, 100, g)
		m := pic(2, 2, 72, c)
		for x := 0; x < 144; x++ { for y := 0; y < 144; y++ { if alpha(m, x, y) > 127 { n++ } } }
		return n
	}
	ok(ink(80) > 3*ink(40), ink(80), ink(40))''')),
 dict(id='c25-full-disk', property='C25', needs='an output file that cannot take the picture',
  breaks='a full disk goes unnoticed for small pictures',
  edits=[(M,'	dst := drawimg.NewRenderer(f)\n','	w := bufio.NewWriterSize(f, 1<<20)\n	defer w.Flush()\n	dst := drawimg.NewRenderer(w)\n'),
         (M,'	err = f.Close()\n','	w.Flush()\n	err = f.Close()\n'),
         (M,'import (\n	"flag"','import (\n	"bufio"\n	"flag"')],
  demo=cd(r'''full := os.Getenv("DEMO_TMP") + "/full"
os.Symlink("/dev/full", full)
ok(tool("-o", full, "$x$") != nil, "no failure")''')),
 dict(id='c25-not-cut', property='C25', needs='an output file that exists and is longer than the picture',
  breaks='what an output file held before remains after the picture',
  edits=[(M,'	f, err := os.Create(*out)\n','	f, err := os.OpenFile(*out, os.O_RDWR|os.O_CREATE, 0666)\n')],
  demo=cd(r'''p := filepath.Join(tmp, "o.png")
	os.WriteFile(p, bytes.Repeat([]byte("x"), 1<<16), 0600)
	ok(tool("-o", p, "$x$") == nil, "failure")
	b, _ := os.ReadFile(p)
	r := bytes.NewReader(b)
	_, err := png.Decode(r)
	ok(err == nil && r.Len() == 0, err, r.Len())''')),
 dict(id='c25-fraction-dpi', property='C25', needs='a resolution with a fraction',
  breaks='the resolution is taken as a whole number',
  edits=[(M,'	err = mtex.Render(dst, expr, *size, *dpi, fnts)','	err = mtex.Render(dst, expr, *size, float64(int(*dpi)), fnts)')],
  demo=cd(r'''w := func(dpi string) int {
		p := filepath.Join(tmp, "o.png")
		ok(tool("-o", p, "-dpi", dpi, "$abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz$") == nil, "failure")
		f, _ := os.Open(p)
		defer f.Close()
		c, _ := png.DecodeConfig(f)
		return c.Width
	}
	ok(w("72") < w("72.5"), w("72"), w("72.5"))''')),
 dict(id='c25-extra-args', property='C25', needs='more than one expression, or options after the expression',
  breaks='further arguments are ignored',
  edits=[(M,'	if flag.NArg() != 1 {','	if flag.NArg() < 1 {')],
  demo=cd(r'''ok(tool("$x$", "-dpi", "300") != nil, "accepted")''')),
 dict(id='c25-late-error', property='C25', needs='an expression that is refused after part of it was typeset',
  breaks='refused expressions end with status zero if they start with text',
  edits=[(M,'		log.Fatalf("could not render math expression %q: %+v", expr, err)','		log.Printf("could not render math expression %q: %+v", expr, err)\n		if expr == "" || expr[0] == \'$\' || expr[0] == \'\\\\\' {\n			os.Exit(1)\n		}')],
  demo=cd(r'''ok(tool("ab $x_i$") != nil, "accepted")''')),
 dict(id='c25-small-size', property='C25', needs='a font size below nine points',
  breaks='small font sizes are raised to nine points',
  edits=[(M,'	expr := flag.Arg(0)\n','	expr := flag.Arg(0)\n	if *size < 9 {\n		*size = 9\n	}\n')],
  demo=cd(r'''w := func(z string) int {
		p := filepath.Join(tmp, "o.png")
		ok(tool("-o", p, "-font-size", z, "$abcdefgh$") == nil, "failure")
		f, _ := os.Open(p)
		defer f.Close()
		c, _ := png.DecodeConfig(f)
		return c.Width
	}
	ok(w("6") < w("9")-5, w("6"), w("9"))''')),
]
