exec(open('/verif/tools/seeds/front.py').read().split('SEEDS =')[0])
IM=('fmt','os','math','github.com/go-latex/latex/font','github.com/go-latex/latex/tex')
PRE='''
type be struct{ log []string }
func (b *be) RenderGlyph(x, y float64, f font.Font, s string, dpi float64) { b.log = append(b.log, fmt.Sprintf("%s %g %g %g", s, f.Size, x, y)) }
func (b *be) RenderRectFilled(x1, y1, x2, y2 float64) { b.log = append(b.log, fmt.Sprintf("rect %g %g %g %g", x1, y1, x2, y2)) }
func (b *be) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 { if s1 == "V" && s2 == "A" { return -f1.Size / 4 }; return 0 }
func (b *be) Metrics(s string, f font.Font, dpi float64, m bool) font.Metrics {
	return font.Metrics{Advance: f.Size, Width: f.Size / 2, Height: f.Size / 2, Iceberg: f.Size / 4, XMin: f.Size / 8, XMax: f.Size / 2, YMin: f.Size / 8, YMax: f.Size / 2}
}
func (b *be) XHeight(f font.Font, dpi float64) float64            { return f.Size / 2 }
func (b *be) UnderlineThickness(f font.Font, dpi float64) float64 { return f.Size / 8 }
var bk = new(be)
func st(size float64) tex.State { return tex.NewState(bk, font.Font{Name: "default", Type: "rm", Size: size}, 72) }
type N = []tex.Node
var _ = math.Inf
func need(got, want string) { if got != want { fmt.Printf("got %q want %q\\n", got, want); os.Exit(1) } }
func dims(n tex.Node) string { return fmt.Sprintf("%.6g %.6g %.6g", n.Width(), n.Height(), n.Depth()) }
func ship(sh *tex.Ship, x, y float64, t tex.Tree) string { bk.log = nil; sh.Call(x, y, t); return fmt.Sprint(bk.log) }
'''
def bd(body): return demo(body, IM) + PRE
SEEDS=[
 dict(id='c07-half-running', property='C07', needs='a child of which only the height (or only the depth) is running',
  breaks='the extent of a child is ignored only if both its height and depth are running',
  edits=[('tex/box.go','''	*width += box.width
	if math.IsInf(box.height, 0) || math.IsInf(box.depth, 0) {''','''	*width += box.width
	if math.IsInf(box.height, 0) && math.IsInf(box.depth, 0) {''')],
  demo=bd('need(dims(tex.HListOf(N{tex.NewRule(1, math.Inf(1), 3, st(8)), tex.VBox(1, 1)}, false)), "1 1 1")')),
 dict(id='c07-keeps-extent', property='C07', needs='a list packed again after one of its children got smaller',
  breaks='a list packed again never gets lower than it was before',
  edits=[('tex/box.go','''	lst.lst.box.height = h
	lst.lst.box.depth = d

	if additional {''','''	lst.lst.box.height = math.Max(h, lst.lst.box.height)
	lst.lst.box.depth = d

	if additional {''')],
  demo=bd('''v := tex.VListOf(N{tex.VBox(9, 0)})
	h := tex.HListOf(N{v}, false)
	v.SetShift(5)
	h.HPack(0, true)
	need(dims(h), "0 4 5")''')),
 dict(id='c07-shift-clip', property='C07', needs='a child list lowered by more than its height, and no higher sibling',
  breaks='a lowered list counts with its full height when it is lowered below the baseline',
  edits=[('tex/box.go','''	*height = math.Max(*height, lst.box.height-lst.shift)''','''	*height = math.Max(*height, math.Abs(lst.box.height-lst.shift))''')],
  demo=bd('''v := tex.VListOf(N{tex.VBox(4, 0)})
	v.SetShift(10)
	need(dims(tex.HListOf(N{v}, false)), "0 0 10")''')),
 dict(id='c08-kern-depth', property='C08', needs='a kern that directly follows a box with a negative depth in a vertical list',
  breaks='a negative depth is dropped, not stacked, when a kern follows',
  edits=[('tex/box.go','''	*height += *depth + k.width
	*depth = 0''','''	*height += math.Max(*depth, 0) + k.width
	*depth = 0''')],
  demo=bd('need(dims(tex.VListOf(N{tex.VBox(4, -3), tex.NewKern(2)})), "0 3 0")')),
 dict(id='c08-limit-excess', property='C08', needs='packing with a depth limit and additional height, when the depth exceeds the limit',
  breaks='the depth above the limit is not counted as height when additional height is requested',
  edits=[('tex/box.go','''	case d > l:
		x += d - l
		lst.lst.box.depth = l''','''	case d > l:
		if !additional {
			x += d - l
		}
		lst.lst.box.depth = l''')],
  demo=bd('''v := tex.VListOf(N{tex.VBox(4, 3)})
	v.VPack(1, true, 1)
	need(dims(v), "0 7 1")''')),
 dict(id='c08-narrow-list', property='C08', needs='a vertical list with a wide nested list followed by a narrower one',
  breaks='the width is that of the last nested list, not of the widest',
  edits=[('tex/box.go','''	*height += *depth + lst.box.height
	*depth = lst.box.depth
	if math.IsInf(lst.box.width, 0) {
		return
	}
	*width = math.Max(*width, lst.box.width)''','''	*height += *depth + lst.box.height
	*depth = lst.box.depth
	if math.IsInf(lst.box.width, 0) || lst.box.width <= 0 {
		return
	}
	*width = lst.box.width''')],
  demo=bd('''w := func(x float64) tex.Node { return tex.HListOf(N{tex.HBox(x)}, false) }
	need(dims(tex.VListOf(N{w(9), w(4)})), "9 0 0")''')),
 dict(id='c09-order-sign', property='C09', needs='a list to shrink whose only glue is of the centering kind (negative total)',
  breaks='glue with a negative total is not found and not set',
  edits=[('tex/box.go','''		if totals[i] != 0 {
			return i''','''		if totals[i] > 0 {
			return i''')],
  demo=bd('''h := tex.HCentered(N{tex.HBox(10)})
	h.HPack(4, false)
	need(fmt.Sprint(h.GlueSign(), h.GlueOrder(), h.GlueSet()), "-1 1 3")''')),
 dict(id='c09-vshrink-cumul', property='C09', needs='a vertical list with two glues that shrink',
  breaks='the second glue of a shrinking vertical list gets no share of its own',
  edits=[('tex/box.go','''				case glueOrder == node.shrinkOrder: // shrinking
					curGlue += node.shrink''','''				case glueOrder == node.shrinkOrder: // shrinking
					curGlue = node.shrink''')],
  demo=bd('''g := func() tex.Node { return tex.NewGlue("neg_fil") }
	v := tex.VListOf(N{tex.VBox(20, 0), g(), g(), tex.NewRule(1, 2, 0, st(8))})
	h := tex.HListOf(N{v}, false)
	var sh tex.Ship
	v.VPack(-10, true, math.Inf(1))
	need(ship(&sh, 0, 10, h), "[rect 0 32 1 34]")''')),
 dict(id='c09-trunc', property='C09', needs='a vertical list that stretches with several glues, an accumulated share of glue with a fraction of at least one half',
  breaks='accumulated glue is cut, not rounded, to whole units in vertical lists that stretch, from the second glue on',
  edits=[('tex/box.go','''						curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
					}
				case glueOrder == node.shrinkOrder: // shrinking''','''						curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
						if curGlue > 1 {
							curG = int(box.GlueSet() * curGlue)
						}
					}
				case glueOrder == node.shrinkOrder: // shrinking''')],
  demo=bd('''v := tex.VListOf(N{tex.NewGlue("fil"), tex.NewGlue("fil"), tex.NewRule(1, 1, 0, st(8))})
	v.VPack(3.8, true, math.Inf(1))
	var sh tex.Ship
	need(ship(&sh, 0, 0, tex.HListOf(N{v}, false)), "[rect 0 5 1 6]")''')),
 dict(id='c09-stale-sign', property='C09', needs='a list packed to its natural width after it was stretched',
  breaks='a list packed back to its natural width keeps its glue set',
  edits=[('tex/box.go','''	case x == 0:
		lst.lst.glue.sign = 0
		lst.lst.glue.order = 0
		lst.lst.glue.ratio = 0
	case x > 0:
		lst.lst.setGlue(x, 1, totStretch, "overfull", "HList")''','''	case x == 0:
		lst.lst.glue.order = 0
		lst.lst.glue.ratio = 0
	case x > 0:
		lst.lst.setGlue(x, 1, totStretch, "overfull", "HList")''')],
  demo=bd('''h := tex.HListOf(N{tex.NewGlue("fil"), tex.HBox(5)}, false)
	h.HPack(9, false)
	h.HPack(0, true)
	need(fmt.Sprint(h.GlueSign()), "0")''')),
 dict(id='c10-alias', property='C10', needs='reuse of the slice given to a list built without kerning',
  breaks='the list shares the caller\'s slice',
  edits=[('tex/box.go','''	list := &List{children: make([]Node, len(elements))}
	copy(list.children, elements)
	return list''','''	return &List{children: elements}''')],
  demo=bd('''s := N{tex.HBox(1), tex.HBox(2)}
	h := tex.HListOf(s, false)
	s[0] = tex.HBox(100)
	h.HPack(0, true)
	need(dims(h), "3 0 0")''')),
 dict(id='c10-through-kern', property='C10', needs='an explicit kern between two characters that kern with each other',
  breaks='characters are kerned with the next character even when something else is between them',
  edits=[('tex/box.go','''			next = lst.lst.children[i+1]
		}
		dist''','''			next = lst.lst.children[i+1]
		}
		if _, ok := next.(*Kern); ok && i < n-2 {
			next = lst.lst.children[i+2]
		}
		dist''')],
  demo=bd('''h := tex.HListOf(N{tex.NewChar("V", st(8), false), tex.NewKern(1), tex.NewChar("A", st(8), false)}, true)
	need(dims(h), "17 2 2")''')),
 dict(id='c10-accent-next', property='C10', needs='a character directly followed by an accent it kerns with',
  breaks='a character is not kerned with an accent that follows',
  edits=[('tex/box.go','''		kern = c.be.Kern(c.font, c.c, next.char.font, next.char.c, c.dpi)
''','''		kern = c.be.Kern(c.font, c.c, next.char.font, "", c.dpi)
''')],
  demo=bd('''h := tex.HListOf(N{tex.NewChar("V", st(8), false), tex.NewAccent("A", st(8), false)}, true)
	need(dims(h), "14 3 2")''')),
 dict(id='c11-grow-shift', property='C11', needs='a shifted list that is grown',
  breaks='growing a list does not grow its shift',
  edits=[('tex/box.go','''	lst.box.Grow()
	lst.shift *= growFactor
''','''	lst.box.Grow()
''')],
  demo=bd('''v := tex.VListOf(N{tex.VBox(7, 0)})
	v.SetShift(7)
	h := tex.HListOf(N{v}, false)
	h.Grow()
	h.HPack(0, true)
	need(dims(h), "0 0 10")''')),
 dict(id='c11-accent-offset', property='C11', needs='a shrunk accent that is output',
  breaks='the offset at which an accent is drawn does not shrink with it',
  edits=[('tex/box.go','''	acc.char.Shrink()
	acc.updateMetrics()''','''	acc.char.Shrink()''')],
  demo=bd('''a := tex.NewAccent("^", st(80), false)
	h := tex.HListOf(N{a}, false)
	h.Shrink()
	var sh tex.Ship
	need(ship(&sh, 0, 0, h), "[^ 56 -7 28]")''')),
 dict(id='c11-glue-set', property='C11', needs='a list that shrinks its glue and is then scaled down',
  breaks='the setting of shrinking glue is not scaled',
  edits=[('tex/box.go','''		lst.shift *= shrinkFactor
		lst.glue.set *= shrinkFactor''','''		lst.shift *= shrinkFactor
		if lst.glue.sign >= 0 {
			lst.glue.set *= shrinkFactor
		}''')],
  demo=bd('''h := tex.HListOf(N{tex.NewGlue("ss"), tex.HBox(20)}, false)
	h.HPack(10, false)
	h.Shrink()
	need(fmt.Sprintf("%.6g", h.GlueSet()), "7")''')),
 dict(id='c12-accent-base', property='C12', needs='an accent that does not reach down to the baseline',
  breaks='accents are drawn without their vertical offset',
  edits=[('tex/box.go','''		y+acc.char.metrics.YMin,''','''		y,''')],
  demo=bd('''var sh tex.Ship
	need(ship(&sh, 0, 0, tex.HListOf(N{tex.NewAccent("^", st(8), false)}, false)), "[^ 8 -1 4]")''')),
 dict(id='c12-empty-slot', property='C12', needs='an empty list packed to a width, in a horizontal list',
  breaks='an empty list with a width leaves no space',
  edits=[('tex/box.go','''		case *HList:
			// node623
			switch len(node.Nodes()) {
			case 0:
				ship.cur.h += node.Width()
''','''		case *HList:
			// node623
			switch len(node.Nodes()) {
			case 0:
''')],
  demo=bd('''e := tex.HListOf(nil, false)
	e.HPack(5, false)
	var sh tex.Ship
	need(ship(&sh, 0, 0, tex.HListOf(N{e, tex.NewRule(1, 1, 0, st(8))}, false)), "[rect 5 0 6 1]")''')),
 dict(id='c12-vv-edge', property='C12', needs='a shifted vertical list stacked in another one, and something after it',
  breaks='what follows a shifted vertical list in a vertical list is shifted too',
  edits=[('tex/box.go','''				ship.vlistOut(node)
				ship.cur.v = curV + node.Depth()
				ship.cur.h = leftEdge''','''				ship.vlistOut(node)
				ship.cur.v = curV + node.Depth()''')],
  demo=bd('''r := func() tex.Node { return tex.NewRule(1, 1, 0, st(8)) }
	v := tex.VListOf(N{r()})
	v.SetShift(5)
	var sh tex.Ship
	w := tex.VListOf(N{v, r()})
	need(ship(&sh, 0, 0, tex.HListOf(N{w}, false)), "[rect 5 1 6 2 rect 0 2 1 3]")''')),
 dict(id='c13-leftover', property='C13', needs='an output object used again',
  breaks='the next output starts where the previous one ended',
  edits=[('tex/box.go','''	ship.cur.v = 0
	ship.cur.h = 0
	ship.off.h = ox''','''	ship.cur.v = 0
	ship.off.h = ox''')],
  demo=bd('''h := tex.HListOf(N{tex.NewChar("x", st(8), false)}, false)
	var sh tex.Ship
	a := ship(&sh, 1, 2, h)
	need(ship(&sh, 1, 2, h), a)''')),
 dict(id='c13-glue-grid', property='C13', needs='stretched glue of the second order and an offset that is not a whole number',
  breaks='what follows stretched glue is put on whole positions of the page, whatever the offset',
  edits=[('tex/box.go','''				}
			}
			ruleWidth += float64(curG)
			ship.cur.h += ruleWidth''','''				}
			}
			ruleWidth += float64(curG)
			ship.cur.h += ruleWidth
			if glueSign == 1 && glueOrder > 1 {
				ship.cur.h = math.Round(ship.cur.h+ship.off.h) - ship.off.h
			}''')],
  demo=bd('''h := tex.HListOf(N{tex.NewGlue("fill"), tex.NewChar("x", st(8), false)}, false)
	h.HPack(14, false)
	var sh tex.Ship
	need(ship(&sh, 0.25, 0, h), "[x 8 10.25 2]")''')),
 dict(id='c13-vshift-kept', property='C13', needs='a vertical list with a shift, output twice',
  breaks='outputting a shifted list consumes its shift',
  edits=[('tex/box.go','''				ship.cur.v = baseLine + node.lst.shift
				ship.vlistOut(node)''','''				ship.cur.v = baseLine + node.lst.shift
				if len(node.Nodes()) == 1 {
					node.lst.shift = 0
				}
				ship.vlistOut(node)''')],
  demo=bd('''v := tex.VListOf(N{tex.HListOf(N{tex.NewChar("x", st(8), false)}, false)})
	v.SetShift(5)
	h := tex.HListOf(N{v}, false)
	var sh tex.Ship
	a := ship(&sh, 1, 2, h)
	need(ship(&sh, 1, 2, h), a)''')),
]
