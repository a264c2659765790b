exec(open('/verif/tools/seeds/fonts.py').read().split('\nSEEDS')[0])
F_bd, F_PRE, F_IM = bd, PRE, IM
def fbd(body): return demo(body, F_IM) + F_PRE
exec(open('/verif/tools/seeds/typeset.py').read().split('\nSEEDS')[0])
T_PRE, T_IM = PRE, IM
def tbd(body): return demo(body, T_IM) + T_PRE
exec(open('/verif/tools/seeds/render.py').read().split('\nSEEDS')[0])
SEEDS=[
 dict(id='c14-long-word', property='C14', needs='a word of more than 48 letters',
  breaks='letters of very long words are dropped',
  edits=[('mtex/parser.go','		v.nodes = append(v.nodes, tex.HListOf(nodes, true))\n	case *ast.Literal:','		if len(nodes) > 48 {\n			nodes = nodes[:48]\n		}\n		v.nodes = append(v.nodes, tex.HListOf(nodes, true))\n	case *ast.Literal:')],
  demo=tbd(r'''b := set("$"+strings.Repeat("ab", 40)+"$", 10, 72)
	ok(len(b.sym) == 80, len(b.sym))''')),
 dict(id='c19-crowded', property='C19', needs='a backend that remembers more than 64 glyphs, and two sizes of one glyph',
  breaks='once a backend remembers many glyphs, new ones are remembered by whole sizes only',
  edits=[('font/ttf/ttf.go','	key := ttfKey{symbol, fnt, dpi}\n','	key := ttfKey{symbol, fnt, dpi}\n	if len(be.glyphs) > 64 {\n		key.font.Name = ""\n		key.font.Size = float64(int(key.font.Size))\n	}\n')],
  demo=fbd('''	be, _ := lib()
	for i := 33; i < 120; i++ { be.Metrics(string(rune(i)), fnt("default", "rm", 12), 72, true) }
	be.Metrics("x", fnt("default", "it", 10), 72, true)
	a := be.Metrics("x", fnt("default", "it", 10.5), 72, true)
	b, _ := lib()
	ok(a == b.Metrics("x", fnt("default", "it", 10.5), 72, true), a)''')),
 dict(id='c25-quarter-dpi', property='C25', needs='a resolution that is not a multiple of a quarter',
  breaks='the resolution is cut to quarters of a dot per inch',
  edits=[('cmd/mtex-render/main.go','mtex.Render(dst, expr, *size, *dpi, fnts)','mtex.Render(dst, expr, *size, float64(int(*dpi*4))/4, fnts)')],
  demo=cd(r'''size := func(dpi string) (int, int) {
		if err := tool("-dpi="+dpi, "-font-size=400", "-o=x.png", "$abcdefgh$"); err != nil { fmt.Println(err); os.Exit(1) }
		f, err := os.Open(filepath.Join(tmp, "x.png"))
		ok(err == nil, err)
		defer f.Close()
		m, err := png.Decode(f)
		ok(err == nil, err)
		return m.Bounds().Dx(), m.Bounds().Dy()
	}
	w, h := size("72")
	w2, h2 := size("72.24")
	ok(w2 > w && h2 > h, w, h, w2, h2)''')),
 dict(id='c27-many-operations', property='C27', needs='a drawing of more than 500 operations',
  breaks='a large drawing gets a page too many',
  edits=[('drawtex/drawpdf/drawpdf.go','	doc.AddPage()','	if len(c.Ops()) > 500 {\n		doc.SetCompression(true)\n		doc.AddPage()\n	}\n	doc.AddPage()')],
  demo=demo(r'''tmp := os.Getenv("DEMO_TMP")
	c := drawtex.New()
	n := func() int {
		f := filepath.Join(tmp, "x.pdf")
		if err := drawpdf.Write(f, 100, 200, c); err != nil { fmt.Println(err); os.Exit(1) }
		b, err := os.ReadFile(f)
		if err != nil { fmt.Println(err); os.Exit(1) }
		return strings.Count(string(b), "/Type /Page\n")
	}
	if k := n(); k != 1 { fmt.Println("pages", k); os.Exit(1) }
	for i := 0; i < 600; i++ { c.RenderRectFilled(1, 2, 3, 4) }
	if k := n(); k != 1 { fmt.Println("pages", k); os.Exit(1) }''', ('fmt','os','path/filepath','strings','github.com/go-latex/latex/drawtex','github.com/go-latex/latex/drawtex/drawpdf'))),
 dict(id='c20-upright-integral', property='C20', needs='the slant of an integral sign, or of an upright letter in a slanted request',
  breaks='every glyph of an italic request is reported as slanted, digits and operators, too',
  edits=[('font/ttf/ttf.go','slanted := (fontType == "it") || be.isSlanted(symbol)','slanted := (font.Type == "it") || be.isSlanted(symbol)')],
  demo=fbd('''	be, _ := lib()
	ok(!be.Metrics("1", fnt("default", "it", 12), 72, true).Slanted, "1")
	ok(be.Metrics("a", fnt("default", "it", 12), 72, true).Slanted, "a")''')),
]
