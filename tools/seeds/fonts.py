exec(open('/verif/tools/seeds/front.py').read().split('SEEDS =')[0])
IM=('fmt','math','os','sync','github.com/go-latex/latex/drawtex','github.com/go-latex/latex/font','github.com/go-latex/latex/font/liberation','github.com/go-latex/latex/font/lm','github.com/go-latex/latex/font/ttf','github.com/go-latex/latex/internal/tex2unicode','github.com/go-latex/latex/mtex','github.com/go-latex/latex/mtex/symbols','golang.org/x/image/font/gofont/goregular','golang.org/x/image/font/gofont/goitalic','golang.org/x/image/font/gofont/gobold','golang.org/x/image/font/sfnt','github.com/go-latex/latex')
PRE='''
var _ = math.Pi
var _ sync.Mutex
var _ = lm.Fonts
var _ = mtex.Parse
var _ = latex.ParseExpr
var _ = tex2unicode.Index
var _ = symbols.IsSpaced
var _ = liberation.Fonts
var _ = goitalic.TTF
var _ = gobold.TTF
func ok(c bool, what ...interface{}) { if !c { fmt.Println(what...); os.Exit(1) } }
func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }
func parse(raw []byte) *sfnt.Font { f, err := sfnt.Parse(raw); if err != nil { panic(err) }; return f }
func gofonts() *ttf.Fonts { r := parse(goregular.TTF); return &ttf.Fonts{Default: r, Rm: r, It: parse(goitalic.TTF), Bf: parse(gobold.TTF), BfIt: r} }
func fnt(n, t string, z float64) font.Font { return font.Font{Name: n, Type: t, Size: z} }
func lib() (*ttf.Backend, *drawtex.Canvas) { c := drawtex.New(); return ttf.NewFrom(c, liberation.Fonts()), c }
func glyph(c *drawtex.Canvas) drawtex.GlyphOp { return c.Ops()[len(c.Ops())-1].(drawtex.GlyphOp) }
func refused(v string, m bool) (r bool) { defer func() { r = recover() != nil }(); tex2unicode.Index(v, m); return }
'''
def bd(body): return demo(body, IM) + PRE
T='font/ttf/ttf.go'; X='internal/tex2unicode/utf8.go'; S='mtex/symbols/set.go'
SEEDS = [
 dict(id='c19-size-bucket', property='C19', needs='the same symbol at two sizes that differ by less than half a point, asked of one backend',
  breaks='the memory of glyphs is keyed by whole points: a glyph asked for at 12.3 pt is answered as at 12 pt when that came first',
  edits=[(T,'	key := ttfKey{symbol, fnt, dpi}\n','	key := ttfKey{symbol, font.Font{Name: fnt.Name, Type: fnt.Type, Size: math_.Round(fnt.Size)}, dpi}\n'),(T,'	"math"\n','	"math"\n	math_ "math"\n')],
  demo=bd('''	be, c := lib()
	be.Metrics("x", fnt("default", "rm", 12), 72, true)
	got := be.Metrics("x", fnt("default", "rm", 12.3), 72, true)
	b2, _ := lib()
	ok(got == b2.Metrics("x", fnt("default", "rm", 12.3), 72, true), got)
	be.RenderGlyph(0, 0, fnt("default", "rm", 12.3), "x", 72)
	ok(glyph(c).Glyph.Size == 12.3, glyph(c).Glyph.Size)''')),
 dict(id='c19-style-key', property='C19', needs='a symbol macro whose glyph exists in italic and upright, asked for in both styles under one font name',
  breaks='the memory of glyphs forgets the style of symbols that are not single characters: \\alpha in italic is answered upright after it has been asked for upright',
  edits=[(T,'	key := ttfKey{symbol, fnt, dpi}\n','''	key := ttfKey{symbol, fnt, dpi}
	if len(symbol) > 1 {
		// symbols have no italic form.
		key.font.Type = ""
	}
''')],
  demo=bd('''	be, c := lib()
	be.RenderGlyph(0, 0, fnt("default", "rm", 12), "\\\\alpha", 72)
	be.RenderGlyph(9, 0, fnt("default", "it", 12), "\\\\alpha", 72)
	ok(glyph(c).Glyph.Font == liberation.Fonts().It, "upright")
	m := be.Metrics("\\\\alpha", fnt("default", "it", 12), 72, true)
	ok(m.Slanted, m)''')),
 dict(id='c19-kern-shared', property='C19', needs='two backends over different fonts that ask for the kerning of the same pair of glyph numbers, the second one having a kern',
  breaks='kerning is remembered for all backends together by glyph numbers, without the font',
  edits=[(T,'''		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, scale, hintingNone)
		if err != nil {
			if errors.Is(err, sfnt.ErrNotFound) {
				return 0
			}
''','''		pair := [2]sfnt.GlyphIndex{info1.glyph, info2.glyph}
		k, ok := kerns[pair]
		if ok {
			return float64(k) * ft1.Size / float64(upem)
		}
		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, scale, hintingNone)
		if err == nil {
			kerns[pair] = k
		}
		if err != nil {
			if errors.Is(err, sfnt.ErrNotFound) {
				kerns[pair] = 0
				return 0
			}
'''),(T,'type ttfKey struct {','// kerns caches the kerning of pairs of glyphs, in font units.\nvar kerns = make(map[[2]sfnt.GlyphIndex]fixed.Int26_6)\n\ntype ttfKey struct {')],
  demo=bd('''	a, b := lib()
	_ = b
	f := fnt("default", "rm", 12)
	alone := map[string]float64{}
	s := "AVTWYLPoaeyfFr"
	for _, x := range s { for _, y := range s { alone[string(x)+string(y)] = a.Kern(f, string(x), f, string(y), 72) } }
	// a font with the same glyph numbers: the bold one, as upright
	l := *liberation.Fonts()
	l.Rm = l.Bf
	n := 0
	bb := ttf.NewFrom(drawtex.New(), &l)
	for _, x := range s { for _, y := range s {
		i, _ := l.Bf.GlyphIndex(nil, x)
		j, _ := l.Bf.GlyphIndex(nil, y)
		k, err := l.Bf.Kern(nil, i, j, 2048, 0)
		if err != nil { k = 0 }
		n++
		ok(near(bb.Kern(f, string(x), f, string(y), 72), float64(k)*12/2048), string(x)+string(y))
	} }
	ok(n > 0)''')),
 dict(id='c19-last-hit', property='C19', needs='the same symbol and style asked for twice in a row at different sizes',
  breaks='a short cut for the symbol asked for last ignores the size of the font',
  edits=[(T,'''	val, ok := be.glyphs[key]
	if ok {
		return val
	}
''','''	if be.last.ok && be.last.key.symbol == key.symbol && be.last.key.font.Type == fnt.Type &&
		be.last.key.dpi == dpi && be.last.math == math {
		return be.last.val
	}
	val, ok := be.glyphs[key]
	if ok {
		be.last.key, be.last.math, be.last.val = key, math, val
		return val
	}
'''),(T,'''	fonts  map[string]*sfnt.Font
}

func New(''','''	fonts  map[string]*sfnt.Font

	last struct {
		ok   bool
		key  ttfKey
		math bool
		val  ttfVal
	}
}

func New('''),(T,'''		return val
	}

	var (
		buf     sfnt.Buffer''','''		be.last.ok = len(be.glyphs) > 8
		return val
	}

	var (
		buf     sfnt.Buffer''')] ,
  demo=bd('''	be, _ := lib()
	for _, s := range "abcdefghijkl" { be.Metrics(string(s), fnt("default", "rm", 12), 72, true) }
	be.Metrics("x", fnt("default", "rm", 12), 72, true)
	be.Metrics("x", fnt("default", "rm", 12), 72, true)
	got := be.Metrics("x", fnt("default", "rm", 24), 72, true)
	b2, _ := lib()
	ok(got == b2.Metrics("x", fnt("default", "rm", 24), 72, true), got)''')),
 dict(id='c19-xheight-memo', property='C19', needs='the x-height asked of one backend for two fonts of the same size, or at two resolutions',
  breaks='the x-height is remembered by size alone',
  edits=[(T,'''	ft := be.getFont(fnt.Type)
	face, err := opentype.NewFace(ft,''','''	if x, ok := be.xheights[fnt.Size]; ok {
		return x
	}
	defer func() {
		if be.xheights == nil {
			be.xheights = make(map[float64]float64)
		}
		be.xheights[fnt.Size] = xh
	}()
	ft := be.getFont(fnt.Type)
	face, err := opentype.NewFace(ft,'''),(T,'func (be *Backend) XHeight(fnt font.Font, dpi float64) float64 {','func (be *Backend) XHeight(fnt font.Font, dpi float64) (xh float64) {'),
   (T,'''	glyphs map[ttfKey]ttfVal
	fonts ''','''	glyphs map[ttfKey]ttfVal

	xheights map[float64]float64

	fonts '''),],
  demo=bd('''	be, _ := lib()
	be.XHeight(fnt("default", "rm", 12), 72)
	got := be.XHeight(fnt("default", "it", 12), 144)
	b2, _ := lib()
	ok(got == b2.XHeight(fnt("default", "it", 12), 144), got)''')),
 dict(id='c20-bold', property='C20', needs='a glyph requested in bold', breaks='bold requests are answered from the bold italic font',
  edits=[(T,'	be.fonts["bf"] = fnts.Bf\n','	be.fonts["bf"] = fnts.BfIt\n')],
  demo=bd('''	be, c := lib()
	be.RenderGlyph(0, 0, fnt("default", "bf", 12), "x", 72)
	ok(glyph(c).Glyph.Font == liberation.Fonts().Bf, glyph(c).Glyph.Postscript)''')),
 dict(id='c20-other-letters', property='C20', needs='an italic request for a letter without case, such as aleph or the ordinal indicator',
  breaks='only letters with case are italic',
  edits=[(T,'		if !unicode.Is(unicode.L, idx) {','		if !unicode.In(idx, unicode.Lu, unicode.Ll, unicode.Lt) {')],
  demo=bd('''	be, c := lib()
	for _, s := range []string{"\u00aa", "\u05d0", "\\\\aleph", "\u01bb"} {
		be.RenderGlyph(0, 0, fnt("default", "it", 12), s, 72)
		ok(glyph(c).Glyph.Font == liberation.Fonts().It, s, glyph(c).Glyph.Postscript)
	}''')),
 dict(id='c20-low-glyph', property='C20', needs='a glyph that lies entirely below the baseline, such as a comma or an underscore... ',
  breaks='the height above the baseline of a glyph below it is reported as zero although its extents are negative',
  edits=[(T,'		Iceberg: ymax + offset,','		Iceberg: math_.Max(ymax+offset, 0),'),(T,'	"math"\n','	"math"\n	math_ "math"\n')],
  demo=bd('''	be, _ := lib()
	m := be.Metrics("_", fnt("default", "rm", 12), 72, true)
	ok(m.YMax < 0 && m.Iceberg == m.YMax, m)''')),
 dict(id='c20-kern-sizes', property='C20', needs='the kerning of two glyphs of the same font at different sizes',
  breaks='glyphs of different sizes are kerned with each other',
  edits=[(T,'	if ft1.Name == ft2.Name && ft1.Size == ft2.Size {','	if ft1.Name == ft2.Name {')],
  demo=bd('''	be, _ := lib()
	ok(be.Kern(fnt("default", "rm", 12), "A", fnt("default", "rm", 10), "V", 72) == 0)''')),
 dict(id='c20-supplement', property='C20', needs='an italic request for one of the supplemental mathematical operators',
  breaks='operators above U+2A00 are taken from the italic font',
  edits=[(T,'	if font.Type == "it" && idx < 0x10000 {','	if font.Type == "it" && idx < 0x2a00 {')],
  demo=bd('''	be, c := lib()
	be.RenderGlyph(0, 0, fnt("default", "it", 12), "\\\\leqslant", 72)
	ok(glyph(c).Glyph.Font == liberation.Fonts().Rm, glyph(c).Glyph.Postscript)''')),
 dict(id='c20-thick-hinted', property='C20', needs='the thickness of lines at a small size or resolution',
  breaks='lines never get thinner than a tenth of a point: the thickness is not proportional to the font size',
  edits=[(T,'	return (0.75 / 12 * font.Size * dpi) / 72\n','	return math.Max((0.75/12*font.Size*dpi)/72, 0.1)\n')],
  demo=bd('''	be, _ := lib()
	ok(near(be.UnderlineThickness(fnt("default", "rm", 1), 72)*12, be.UnderlineThickness(fnt("default", "rm", 12), 72)))''')),
 dict(id='c20-slant-code', property='C20', needs='a hyphen in a formula, drawn', breaks='the glyph drawn for a symbol is recorded with the first character of its name instead of its code point',
  edits=[(T,'''		rune:       rn,
''','''		rune:       drawn(symbol, rn),
'''),(T,'func (*Backend) isSlanted(','''// drawn is the character a glyph is drawn with.
func drawn(symbol string, rn rune) rune {
	if len(symbol) == 1 {
		return rune(symbol[0])
	}
	return rn
}

func (*Backend) isSlanted(''')],
  demo=bd('''	be, c := lib()
	be.RenderGlyph(0, 0, fnt("default", "it", 12), "-", 72)
	ok(glyph(c).Glyph.Symbol == "\u2212", glyph(c).Glyph.Symbol)''')),
 dict(id='c21-dash', property='C21', needs='an en dash in a formula', breaks='an en dash in a formula is a minus sign',
  edits=[(X,'	if math && v == "-" {','	if math && (v == "-" || v == "\u2013") {')],
  demo=bd('''	ok(tex2unicode.Index("\u2013", true) == 0x2013)''')),
 dict(id='c21-member', property='C21', needs='membership of a name with blanks around it', breaks='the membership test ignores blanks around a name, which resolving does not',
  edits=[(X,'	_, ok := tex2uni[v]\n','	_, ok := tex2uni[strings.TrimSpace(v)]\n')],
  demo=bd('''	ok(tex2unicode.HasSymbol("alpha") && !tex2unicode.HasSymbol("alpha "))''')),
 dict(id='c21-entity', property='C21', needs='a name that is unknown but known in lower case', breaks='unknown names resolve like their lower case form',
  edits=[(X,'	panic(fmt.Errorf("%q is not','''	if r, ok := tex2uni[strings.ToLower(strings.TrimPrefix(v, `\\`))]; ok {
		return r
	}

	panic(fmt.Errorf("%q is not''')],
  demo=bd('''	ok(refused("\\\\Alpha", true) && refused("INFTY", false))''')),
 dict(id='c21-short-names', property='C21', needs='a control symbol or one-letter symbol macro', breaks='the list of names leaves out the single punctuation characters, whose macros are then unknown',
  edits=[(X,'''		names = append(names, k)
''','''		if len(k) == 1 && strings.ContainsAny(k, "#$%&_{}|()") {
			continue // characters, not names
		}
		names = append(names, k)
''')],
  demo=bd('''	n := 0
	for _, s := range tex2unicode.Symbols() { if s == "#" || s == "|" { n++ } }
	_, err := latex.ParseExpr("\\\\|")
	ok(n == 2 && err == nil, n, err)''')),
 dict(id='c21-typo', property='C21', needs='one symbol', breaks='a code point of the table is off by one', edits=[],demo=''),
 dict(id='c24-alias', property='C24', needs='a union of a single set, changed afterwards', breaks='the union of one set is that set itself: changing the union changes the set',
  edits=[(S,'''	o := make(Set, len(sets))
	for''','''	if len(sets) == 1 && sets[0] != nil {
		return sets[0]
	}
	o := make(Set, len(sets))
	for''')],
  demo=bd('''	a := symbols.NewSet("x", "y")
	u := symbols.UnionOf(a)
	u["z"] = struct{}{}
	ok(!a.Has("z"))''')),
 dict(id='c24-empty', property='C24', needs='the empty string as a member', breaks='the empty string cannot be a member of a set',
  edits=[(S,'''	for _, k := range vs {
''','''	for _, k := range vs {
		if k == "" {
			continue
		}
''')],
  demo=bd('''	ok(symbols.NewSet("", "a").Has("") && len(symbols.NewSet("").Keys()) == 1)''')),
 dict(id='c24-fold-order', property='C24', needs='names that differ in case', breaks='listings are sorted without regard to case',
  edits=[(S,'	sort.Strings(keys)\n','	sort.Slice(keys, func(i, j int) bool { return strings.ToLower(keys[i]) < strings.ToLower(keys[j]) })\n'),(S,'	"sort"\n','	"sort"\n	"strings"\n')],
  demo=bd('''	k := symbols.NewSet("a", "B", "C", "b").Keys()
	ok(k[0] == "B" && k[1] == "C" && k[2] == "a" && k[3] == "b", k)''')),
 dict(id='c24-trim', property='C24', needs='a symbol with blanks around', breaks='a symbol with blanks around counts as spaced',
  edits=[('mtex/symbols/symbols.go','	return SpacedSymbols.Has(s)\n','	return SpacedSymbols.Has(strings.TrimSpace(s))\n'),('mtex/symbols/symbols.go','var (\n','import "strings"\n\nvar (\n')],
  demo=bd('''	ok(symbols.IsSpaced("+") && !symbols.IsSpaced(" +") && !symbols.IsSpaced("\\\\pm "))''')),
 dict(id='c24-last-two', property='C24', needs='a union of four or more sets with disjoint members', breaks='a union drops members of earlier sets when there are many',
  edits=[(S,'''	for _, set := range sets {
		for k := range set {
			o[k] = struct{}{}
		}
	}
	return o''','''	switch len(sets) {
	case 0:
		return o
	case 1:
		sets = append(sets[:1:1], nil)
	}
	for i, set := range sets {
		if i+1 < len(sets) && len(sets[i+1]) > len(set) {
			// start from the larger one.
			sets[i], sets[i+1] = sets[i+1], set
			set = sets[i]
		}
		for k := range set {
			o[k] = struct{}{}
		}
	}
	return o''')],
  demo=bd('''	a, b := symbols.NewSet("1"), symbols.NewSet("2", "3")
	in := []symbols.Set{a, b}
	u := symbols.UnionOf(in...)
	ok(u.Has("1") && u.Has("3"), u.Keys())
	ok(in[0].Has("1") && !in[0].Has("2"), "the input was reordered")''')),
 dict(id='c24-arrow', property='C24', needs='the long left-right arrow', breaks='an arrow is in no class and not spaced',
  edits=[('mtex/symbols/symbols_gen.go','''		"\\\\longleftrightarrow",
''','')],
  demo=bd('''	ok(symbols.IsSpaced("\\\\longleftrightarrow") && symbols.ArrowSymbols.Has("\\\\longleftrightarrow"))''')),
]
import re as _re
_t=open('/repo/internal/tex2unicode/utf8.go').read()
_m=_re.search(r'\t\t`ntrianglerighteq`:\s+(\d+),', _t)
for _s in SEEDS:
    if _s['id']=='c21-typo':
        _s.update(needs='the symbol \\ntrianglerighteq', breaks='\\ntrianglerighteq resolves to its mirror image',
          edits=[(X,_m[0],_m[0].replace(_m[1],str(int(_m[1])-1)))],
          demo=bd('''	ok(tex2unicode.Index("\\\\ntrianglerighteq", true) == %s)'''%_m[1]))
# (the symbols package imports nothing: put the import after the package clause)
