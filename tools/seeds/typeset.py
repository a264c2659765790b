exec(open('/verif/tools/seeds/front.py').read().split('SEEDS =')[0])
IM=('fmt','os','strings','github.com/go-latex/latex/font','github.com/go-latex/latex/tex','github.com/go-latex/latex/mtex')
PRE='''
type be struct{ sym, typ []string; x, y, size []float64; rect [][4]float64; minus map[bool]bool }
func (b *be) RenderGlyph(x, y float64, f font.Font, s string, dpi float64) {
	b.sym = append(b.sym, s); b.typ = append(b.typ, f.Type); b.x = append(b.x, x); b.y = append(b.y, y); b.size = append(b.size, f.Size)
}
func (b *be) RenderRectFilled(x1, y1, x2, y2 float64) { b.rect = append(b.rect, [4]float64{x1, y1, x2, y2}) }
func (b *be) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 { return 0 }
func (b *be) Metrics(s string, f font.Font, dpi float64, m bool) font.Metrics {
	if s == "-" { b.minus[m] = true }
	u := f.Size * dpi / 72
	w, d := u / 2, 0.0
	if f.Type == "rm" { w = u / 4 }
	if s == "g" || s == "(" || s == ")" { d = u / 4 }
	return font.Metrics{Advance: w, Width: w, Height: u / 2 + d, Iceberg: u / 2, XMin: 0, XMax: w, YMin: -d, YMax: u / 2}
}
func (b *be) XHeight(f font.Font, dpi float64) float64            { return f.Size * dpi / 144 }
func (b *be) UnderlineThickness(f font.Font, dpi float64) float64 { return f.Size * dpi / 72 / 16 }
var box tex.Node
func set(expr string, size, dpi float64) *be {
	b := &be{minus: map[bool]bool{}}
	n, err := mtex.Parse(expr, size, dpi, b)
	if err != nil { fmt.Println(err); os.Exit(1) }
	box = n
	var sh tex.Ship
	sh.Call(0, 0, n.(tex.Tree))
	return b
}
func (b *be) syms() string { return strings.Join(b.sym, " ") }
func (b *be) types() string { return strings.Join(b.typ, " ") }
func near(a, b float64) bool { return a-b < 1e-6 && b-a < 1e-6 }
func need(got, want interface{}) { if fmt.Sprint(got) != fmt.Sprint(want) { fmt.Printf("got %v want %v\\n", got, want); os.Exit(1) } }
func ok(c bool, what ...interface{}) { if !c { fmt.Println(what...); os.Exit(1) } }
'''
def bd(body): return demo(body, IM) + PRE
SEEDS=[
 dict(id='c15-small-size', property='C15', needs='a fraction at a font size below eight points',
  breaks='the numerator and denominator of a fraction are full size at small sizes',
  edits=[('mtex/parser.go','\tif style != displayStyle {\n','\tif style != displayStyle && state.Font.Size >= 8 {\n')],
  demo=bd(r'''b := set(`$\frac{a}{b}$`, 6, 72)
	ok(near(b.size[0], 4.2), b.size)''')),
 dict(id='c15-root-once', property='C15', needs='a root narrower than the radical sign',
  breaks='narrow roots are only one size smaller',
  edits=[('mtex/parser.go','''	default:
		root.Shrink()
		root.Shrink()''','''	default:
		root.Shrink()
		if root.Width() >= check.Width()/2 {
			root.Shrink()
		}''')],
  demo=bd(r'''b := set(`$\sqrt[3]{\dfrac{\dfrac{a}{b}}{c}}$`, 10, 72)
	ok(near(b.size[0], 4.9), b.size)''')),
 dict(id='c15-narrow-den', property='C15', needs='a fraction whose denominator is wider than its numerator, in display style',
  breaks='in display style the denominator is packed to the width of the numerator',
  edits=[('mtex/parser.go','''	width := math.Max(num.Width(), den.Width())
''','''	width := math.Max(num.Width(), den.Width())
	if style == displayStyle {
		width = num.Width()
	}
''')],
  demo=bd(r'''b := set(`$\dfrac{a}{bcdefg}$`, 10, 72)
	ok(near(b.rect[0][2]-b.rect[0][0], 30), b.rect)''')),
 dict(id='c15-overline-group', property='C15', needs='an over line over nothing but a fraction',
  breaks='the clearance of an over line over something tall is not added',
  edits=[('mtex/parser.go','\theight := body.Height() - body.Shift() + 3*thickness\n','\theight := body.Height() - body.Shift() + 3*thickness\n\tif height > 1.5*state.Font.Size {\n\t\theight = body.Height()\n\t}\n')],
  demo=bd(r'''set(`$\dfrac{\dfrac{a}{b}}{c}$`, 10, 72)
	h := box.Height()
	set(`$\overline{\dfrac{\dfrac{a}{b}}{c}}$`, 10, 72)
	ok(box.Height() > h+1, box.Height(), h)''')),
 dict(id='c16-dot-end', property='C16', needs='a decimal number at the end of the expression',
  breaks='the dot of a decimal number whose only decimal ends the expression is spaced',
  edits=[('mtex/parser.go','(pos < len(p.expr)-1 && isdigit','(pos < len(p.expr)-2 && isdigit')],
  demo=bd(r'''b := set(`1.5`, 16, 72)
	ok(near(b.x[2]-b.x[1], 4), b.x)''')),
 dict(id='c14-root-first', property='C14', needs='a radical whose root has more than one element',
  breaks='only the first element of a root is typeset',
  edits=[('mtex/parser.go','''			ast.List(macro.Args[0].(*ast.OptArg).List),''','''			ast.List(macro.Args[0].(*ast.OptArg).List[:1]),''')],
  demo=bd(r'need(set(`$\sqrt[2n]{x}$`, 12, 72).syms(), `2 n \__sqrt__ x`)')),
 dict(id='c14-word-bytes', property='C14', needs='a word with a letter that is not ASCII',
  breaks='words are typeset byte by byte',
  edits=[('mtex/parser.go','''		for _, x := range n.Text {
			nodes = append(nodes, tex.NewChar(string(x), v.state, v.math))''','''		for i := 0; i < len(n.Text); i++ {
			x := rune(n.Text[i])
			nodes = append(nodes, tex.NewChar(string(x), v.state, v.math))''')],
  demo=bd('need(set("$\u00e9a$", 12, 72).syms(), "\u00e9 a")')),
 dict(id='c14-shared-nodes', property='C14', needs='a construct nested in a part of another construct that already holds something',
  breaks='the nodes of the parts of constructs are collected in a buffer shared by all nesting levels',
  edits=[('mtex/parser.go','''	expr   string
	macros map[string]handler
''','''	expr   string
	nodes  []tex.Node
	macros map[string]handler
'''),('mtex/parser.go','''	v := visitor{p: p, state: state, math: math}
	ast.Walk(&v, node)
	return tex.HListOf(v.nodes, true)''','''	v := visitor{p: p, nodes: p.nodes[:0], state: state, math: math}
	ast.Walk(&v, node)
	if cap(v.nodes) > cap(p.nodes) {
		p.nodes = v.nodes
	}
	return tex.HListOf(v.nodes, true)''')],
  demo=bd(r'need(set(`$\frac{abc d}{e}\overline{1\overline{23}4}$`, 12, 72).syms(), `a b c d e 1 2 3 4`)')),
 dict(id='c14-nested-formula', property='C14', needs='a formula inside a formula',
  breaks='a formula opened inside a formula is taken for the end of the formula: its content is dropped',
  edits=[('mtex/parser.go','''		oldm := v.math
''','''		if v.math && n.Left > 0 && n.Pos() != 0 && p0(v) {
			return nil
		}
		oldm := v.math
'''),('mtex/parser.go','''func (p *parser) handleNode(''','''// p0 reports whether nothing was typeset yet.
func p0(v *visitor) bool { return len(v.nodes) == 0 }

func (p *parser) handleNode(''')],
  demo=bd(r'need(set(`$\frac{$a$}{b $c$}$`, 12, 72).syms(), `a b c`)')),
 dict(id='c15-text-axis', property='C15', needs='a fraction outside of a formula',
  breaks='the bar of a fraction in text is at the height of the equal sign of the wrong style',
  edits=[('mtex/parser.go','''	metrics := state.Backend().Metrics("=", fnt, state.DPI, true)
	shift''','''	metrics := state.Backend().Metrics("=", state.Font, state.DPI, true)
	shift''')],
  demo='AXIS'),
 dict(id='c15-sqrt-dpi', property='C15', needs='a resolution other than 72 dots per inch',
  breaks='the clearance above a radicand does not follow the resolution',
  edits=[('mtex/parser.go','''	// stretch the glue between the HRule and the body
	const additional = false
	rhs.VPack(height+(state.Font.Size*state.DPI)/(100*12), additional, depth)

	// add the root''','''	// stretch the glue between the HRule and the body
	const additional = false
	rhs.VPack(height+(state.Font.Size*72)/(100*12), additional, depth)

	// add the root''')],
  demo=bd(r'''set(`$\sqrt{x}$`, 10, 72)
	h := box.Height()
	set(`$\sqrt{x}$`, 10, 288)
	ok(near(box.Height(), 4*h), box.Height(), h)''')),
 dict(id='c16-blank-brace', property='C16', needs='a binary operator separated from an opening brace or bracket by a blank',
  breaks='blanks between an opening brace and a binary operator count as something before the operator',
  edits=[('mtex/parser.go','''		i := strings.LastIndexFunc(p.expr[:pos], func(r rune) bool {
			return r != ' '
		})''','''		i := strings.LastIndexFunc(p.expr[:pos], func(r rune) bool {
			return r != ' ' || pos > 2
		})''')],
  demo=bd(r'''b := set(`$a( -x$`, 10, 72)
	ok(near(b.x[3]-b.x[2], 5), b.x)''')),
 dict(id='c16-space-style', property='C16', needs='a space command outside of a formula',
  breaks='spaces outside of formulas are measured in the upright style',
  edits=[('mtex/parser.go','''	fnt.Name = "it"
	fnt.Type = rcparams("mathtext.default").(string)
	width''','''	fnt.Name = "it"
	width''')],
  demo=bd(r'''b := set(`a\quad b`, 10, 72)
	ok(near(b.x[1]-b.x[0], 2.5+5), b.x)''')),
 dict(id='c16-closing', property='C16', needs='a binary operator after a closing bracket',
  breaks='a binary operator after a closing bracket is not spaced',
  edits=[('mtex/parser.go','''			symbols.LeftDelim.Has(prev)):''','''			symbols.LeftDelim.Has(prev) || symbols.RightDelim.Has(prev)):''')],
  demo=bd(r'''b := set(`$(a) + b$`, 10, 72)
	ok(near(b.x[4]-b.x[3], 6), b.x)''')),
 dict(id='c16-hspace-int', property='C16', needs='a custom space that is not a whole number',
  breaks='custom spaces are rounded to whole ems',
  edits=[('mtex/parser.go','''	val, err := strconv.ParseFloat(arg, 64)''','''	ival, err := strconv.Atoi(strings.Split(arg, ".")[0])
	val := float64(ival)'''),],
  demo=bd(r'''b := set(`$a\hspace{1.5}b$`, 10, 72)
	ok(near(b.x[1]-b.x[0], 5+7.5), b.x)''')),
 dict(id='c17-function-arg', property='C17', needs='a function with an argument',
  breaks='the argument of a function is upright',
  edits=[('mtex/parser.go','''	rm := state
	rm.Font.Type = "rm"''','''	state.Font.Type = "rm"
	rm := state''')],
  demo=bd(r'''need(set(`$\exp{x}y$`, 10, 72).types(), "rm rm rm it it")''')),
 dict(id='c17-nested-restore', property='C17', needs='a formula inside a formula followed by something in the outer one',
  breaks='after a nested formula the rest of the outer one is upright',
  edits=[('mtex/parser.go','''		v.state.Font.Type = oldt
		return nil''','''		v.state.Font.Type = "rm"
		_ = oldt
		return nil''')],
  demo=bd(r'''need(set(`$\frac{$a$b}{c}d$`, 10, 72).types(), "it it it it")''')),
 dict(id='c17-text-minus', property='C17', needs='a hyphen in text',
  breaks='a hyphen in text is typeset as a minus sign',
  edits=[('mtex/parser.go','''			v.nodes = append(v.nodes, tex.NewChar(string(n.Text), v.state, v.math))
		}''','''			v.nodes = append(v.nodes, tex.NewChar(string(n.Text), v.state, true))
		}''')],
  demo=bd(r'''need(set(`a-b`, 10, 72).minus[true], false)''')),
 dict(id='c17-den-math', property='C17', needs='a fraction in text with a hyphen in its denominator',
  breaks='the denominator of a fraction in text is typeset as in a formula',
  edits=[('mtex/parser.go','''	num := p.handleNode(numNode, state, math)
	den := p.handleNode(denNode, state, math)

	return p.genfrac("", "", thickness, textStyle, num, den, state)''','''	num := p.handleNode(numNode, state, math)
	den := p.handleNode(denNode, state, true)

	return p.genfrac("", "", thickness, textStyle, num, den, state)''')],
  demo=bd(r'''need(set(`\tfrac{a-}{b-}`, 10, 72).minus[true], false)''')),
 dict(id='c17-delim-family', property='C17', needs='a binomial',
  breaks='the delimiters of a binomial are requested from another font',
  edits=[('tex/box.go','''		{state.Font.Name, c},''','''		{state.Font.Type, c},''')],
  demo=bd(r'''_ = set
	var f fam
	n, err := mtex.Parse(`$\binom{a}{b}$`, 10, 72, &f)
	ok(err == nil, err)
	var sh tex.Ship
	sh.Call(0, 0, n.(tex.Tree))
	need(f.names, []string{"default", "default", "default", "default"})''')+'''
type fam struct { be; names []string }
func (f *fam) RenderGlyph(x, y float64, ft font.Font, s string, dpi float64) { f.names = append(f.names, ft.Name) }
'''),
]
for s in SEEDS:
    if s['demo'] == 'AXIS':
        s['demo'] = bd(r'''
	b := &axis{}
	n, err := mtex.Parse(`\frac{a}{b}`, 16, 72, b)
	ok(err == nil, err)
	var sh tex.Ship
	sh.Call(0, 0, n.(tex.Tree))
	in := &axis{}
	m, err := mtex.Parse(`$\frac{a}{b}$`, 16, 72, in)
	ok(err == nil, err)
	ok(near(n.Height(), m.Height()), n.Height(), m.Height())''')+'''
type axis struct{ be }
func (b *axis) Metrics(s string, f font.Font, dpi float64, m bool) font.Metrics {
	if s == "=" && f.Type == "it" { return font.Metrics{YMin: 4, YMax: 12} }
	f.Type = "it"
	return b.be.Metrics(s, f, dpi, m)
}
'''
