exec(open('/verif/tools/seeds/front.py').read().split('SEEDS =')[0])
IM=('bytes','fmt','math','os','runtime','sync','time','github.com/go-latex/latex','github.com/go-latex/latex/ast','github.com/go-latex/latex/drawtex','github.com/go-latex/latex/drawtex/drawimg','github.com/go-latex/latex/font','github.com/go-latex/latex/font/liberation','github.com/go-latex/latex/font/lm','github.com/go-latex/latex/font/ttf','github.com/go-latex/latex/mtex','github.com/go-latex/latex/tex')
PRE='''
var _ = math.Pi
var _ sync.Mutex
var _ = time.Now
var _ = runtime.Gosched
var _ = lm.Fonts
var _ = liberation.Fonts
var _ = mtex.Parse
var _ = tex.HListOf
var _ = latex.ParseExpr
var _ = ast.Print
var _ drawtex.Canvas
var _ = drawimg.NewRenderer
var _ font.Font
var _ bytes.Buffer
func ok(c bool, what ...interface{}) { if !c { fmt.Println(what...); os.Exit(1) } }
func par(n int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < n; i++ { wg.Add(1); go func(i int) { defer wg.Done(); <-start; f(i) }(i) }
	close(start)
	wg.Wait()
}
func tree(s string) string {
	n, err := latex.ParseExpr(s)
	if err != nil { return err.Error() }
	var b bytes.Buffer
	ast.Print(&b, n)
	return b.String()
}
func img(s string, f *ttf.Fonts, size float64) string {
	var b bytes.Buffer
	if err := mtex.Render(drawimg.NewRenderer(&b), s, size, 72, f); err != nil { return err.Error() }
	return b.String()
}
'''
def bd(body): return demo(body, IM) + PRE
T='font/ttf/ttf.go'; L='font/lm/lm.go'; B='font/liberation/liberation.go'; M='mtex/parser.go'
SEEDS = [
 dict(id='c23-no-once', property='C23', race=True, needs='two goroutines that obtain the latin-modern fonts at the same time, for the first time',
  breaks='the fonts are loaded without synchronisation: callers race and may receive different sets',
  edits=[(L,'	once.Do(func() {\n','	if fnts == nil {\n'),(L,'	})\n\n	return fnts','	}\n\n	return fnts'),(L,'	once sync.Once\n	fnts *ttf.Fonts','	fnts *ttf.Fonts'),(L,'	"log"\n	"sync"\n','	"log"\n')],
  demo=bd('''	fs := make([]*ttf.Fonts, 8)
	par(8, func(i int) { fs[i] = lm.Fonts() })
	for _, f := range fs { ok(f == fs[0], "different fonts") }''')),
 dict(id='c23-early', property='C23', race=True, needs='a goroutine that obtains the Liberation fonts while another one is still loading them',
  breaks='the set of fonts is visible to others before it is filled',
  edits=[(B,'''	once.Do(func() {
''','''	if fnts != nil {
		return fnts
	}
	once.Do(func() {
		fnts = new(ttf.Fonts)
'''),(B,'''		fnts = &ttf.Fonts{
			Default: rm,''','''		*fnts = ttf.Fonts{
			Default: rm,''')],
  demo=bd('''	par(8, func(i int) { for k := 0; k < 100; k++ { f := liberation.Fonts(); ok(f.Rm != nil && f.BfIt != nil, "incomplete"); runtime.Gosched() } })''')),
 dict(id='c23-glyph-buffer', property='C23', race=True, needs='two goroutines that measure at the same time',
  breaks='the scratch buffer for reading fonts is shared by all backends',
  edits=[(T,'''	var (
		buf     sfnt.Buffer
		hinting = hintingNone
	)
''','''	hinting := hintingNone
'''),(T,'type ttfKey struct {','// buf is the scratch space glyphs are read into.\nvar buf sfnt.Buffer\n\ntype ttfKey struct {')],
  demo=bd('''	par(8, func(i int) {
		f := lm.Fonts()
		if i%2 == 0 { f = liberation.Fonts() }
		be := ttf.NewFrom(drawtex.New(), f)
		fn := font.Font{Name: "default", Type: "rm", Size: 12}
		for k := 0; k < 50; k++ { be.Kern(fn, "A", fn, "V", 72) }
	})''')),
 dict(id='c23-glyphs-shared', property='C23', race=True, needs='two backends over the same fonts used by two goroutines at the same time',
  breaks='backends over the same fonts share one memory of glyphs',
  edits=[(T,'''		glyphs: make(map[ttfKey]ttfVal),
''','''		glyphs: memory(fnts),
'''),(T,'func New(cnv','''// memories holds what is known of the glyphs of each set of fonts.
var memories sync.Map

func memory(fnts *Fonts) map[ttfKey]ttfVal {
	m, _ := memories.LoadOrStore(fnts, make(map[ttfKey]ttfVal))
	return m.(map[ttfKey]ttfVal)
}

func New(cnv'''),(T,'	"math"\n	"unicode"\n','	"math"\n	"sync"\n	"unicode"\n')],
  demo=bd('''	lm.Fonts()
	par(8, func(i int) {
		be := ttf.NewFrom(drawtex.New(), lm.Fonts())
		for k := 0; k < 50; k++ { be.Metrics("x", font.Font{Name: "default", Type: "rm", Size: float64(k + 1)}, 72, true) }
	})''')),
 dict(id='c23-default-lazy', property='C23', race=True, needs='two goroutines that make their first backend over the built-in fonts at the same time',
  breaks='the default of the built-in fonts is filled in by the first backend, without synchronisation',
  edits=[(T,'''	return NewFrom(cnv, &defaultFonts)
''','''	if defaultFonts.Default == nil {
		defaultFonts.Default = defaultFonts.Rm
	}
	return NewFrom(cnv, &defaultFonts)
'''),(T,'''func init() {
	defaultFonts.Default = defaultFonts.Rm
}

''','')],
  demo=bd('''	par(8, func(i int) { ttf.New(drawtex.New()) })''')),
 dict(id='c23-fonts-edited', property='C23', needs='a set of fonts used for rendering with a missing bold font, then used again, or used by several goroutines',
  breaks='a backend completes the set of fonts it is given in place, so that it changes for everybody',
  edits=[(T,'''	be.fonts["default"] = fnts.Default
''','''	if fnts.Default != fnts.Rm && fnts.Rm != nil {
		fnts.Default = fnts.Rm // upright by default.
	}
	be.fonts["default"] = fnts.Default
''')],
  demo=bd('''	f := *lm.Fonts()
	f.Default = f.Bf
	par(4, func(i int) { ttf.NewFrom(drawtex.New(), &f) })
	ok(f.Default == f.Bf, "the caller's fonts were changed")''')),
 dict(id='c23-mtex-pool', property='C23', race=True, needs='two goroutines typesetting at the same time',
  breaks='one parser is kept for the next expression and handed to whoever comes first, without a lock',
  edits=[(M,'''	p := newParser(backend)
	return p.parse(''','''	p := idle
	idle = nil
	if p == nil {
		p = newParser(backend)
	}
	p.be = backend
	defer func() { idle = p }()
	return p.parse('''),(M,'type parser struct {\n	be','// idle is a parser that is not in use.\nvar idle *parser\n\ntype parser struct {\n	be')],
  demo=bd('''	par(8, func(i int) { for k := 0; k < 30; k++ { img("$\\\\frac{a}{b}$", nil, float64(10+i)) } })''')),

 dict(id='c23-symbols-cached', property='C23', race=True, needs='goroutines that parse for the first time at the same time',
  breaks='the list of symbol names is made on first use and kept, without synchronisation: a parser may see a part of it and refuse known macros',
  edits=[('internal/tex2unicode/utf8.go','''	names := make([]string, 0, len(tex2uni))
	for k := range tex2uni {''','''	if len(names) > 0 {
		return names
	}
	for k := range tex2uni {'''),('internal/tex2unicode/utf8.go','func Symbols() []string {','// names holds the names of all symbols.\nvar names []string\n\nfunc Symbols() []string {')],
  demo=bd('''	par(8, func(i int) { tree("\\\\alpha") })''')),
 dict(id='c23-scratch-nodes', property='C23', race=True, needs='two goroutines typesetting text words at the same time',
  breaks='the nodes of words are collected in a scratch slice shared by all parsers',
  edits=[(M,'''		var nodes []tex.Node
		for _, x := range n.Text {
			nodes''','''		nodes := scratch[:0]
		for _, x := range n.Text {
			nodes'''),(M,'''		v.nodes = append(v.nodes, tex.HListOf(nodes, true))
	case *ast.Literal:''','''		v.nodes = append(v.nodes, tex.HListOf(append([]tex.Node(nil), nodes...), true))
		scratch = nodes
	case *ast.Literal:'''),(M,'type visitor struct {','// scratch holds the nodes of the word that is being typeset.\nvar scratch []tex.Node\n\ntype visitor struct {')],
  demo=bd('''	par(8, func(i int) { for k := 0; k < 30; k++ { img("word", nil, float64(10+i)) } })''')),
 dict(id='c23-face-table', property='C23', race=True, needs='two goroutines that draw images at the same time',
  breaks='drawn faces are kept in a table without a lock, and used by several pictures at once',
  edits=[('drawtex/drawimg/drawimg.go','''	face, err := opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
		DPI:     dpi,
		Size:    op.Glyph.Size,
		Hinting: font.HintingNone,
	})
	if err != nil {
''','''	key := faceKey{op.Glyph.Font, op.Glyph.Size, dpi}
	var err error
	face, ok := faces[key]
	if !ok {
		face, err = opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
			DPI:     dpi,
			Size:    op.Glyph.Size,
			Hinting: font.HintingNone,
		})
		faces[key] = face
	}
	if err != nil {
'''),('drawtex/drawimg/drawimg.go','	defer face.Close()\n',''),('drawtex/drawimg/drawimg.go','func drawGlyph(','''type faceKey struct {
	font      *sfnt.Font
	size, dpi float64
}

// faces holds the faces in use.
var faces = make(map[faceKey]font.Face)

func drawGlyph('''),('drawtex/drawimg/drawimg.go','	"golang.org/x/image/font/opentype"\n','	"golang.org/x/image/font/opentype"\n	"golang.org/x/image/font/sfnt"\n')],
  demo=bd('''	par(8, func(i int) { for k := 0; k < 10; k++ { img("$x$", nil, 12) } })''')),
 dict(id='c23-parse-locked', property='C23', needs='an expression that cannot be typeset, and another one after it, from any goroutine',
  breaks='typesetting is serialised by a lock that is kept when an expression turns out to be unsupported',
  edits=[(M,'''	v := visitor{p: p, state: state}
	ast.Walk(&v, node)
	nodes :=''','''	mu.Lock()
	v := visitor{p: p, state: state}
	ast.Walk(&v, node)
	mu.Unlock()
	nodes :='''),(M,'type parser struct {\n	be','// mu serialises the use of backends.\nvar mu sync.Mutex\n\ntype parser struct {\n	be'),(M,'	"strings"\n\n','	"strings"\n	"sync"\n\n')],
  demo=bd('''	done := make(chan bool)
	go func() { par(4, func(i int) { img("$\\\\mathbb{R}$", nil, 12); img("x", nil, 12) }); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		ok(false, "stuck")
	}''')),
]
