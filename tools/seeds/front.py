def demo(body, imports=('fmt','os','github.com/go-latex/latex')):
    return 'package main\n\nimport (\n' + ''.join('\t%s\n' % (i if i.startswith('_') or ' ' in i else '"%s"' % i) for i in imports) + ')\n\nfunc main() {\n' + body + '\n}\n'
PR = ('bytes','fmt','os','github.com/go-latex/latex','github.com/go-latex/latex/ast')
def printdemo(src, want):
    return demo('''	n, err := latex.ParseExpr(%s)
	if err != nil { fmt.Println(err); os.Exit(1) }
	var b bytes.Buffer
	ast.Print(&b, n)
	want := %s
	if b.String() != want { fmt.Printf("got %%s want %%s\\n", b.String(), want); os.Exit(1) }''' % (src, want), PR)
SEEDS = [
 dict(id='c01-pooled-parser', property='C01', needs='a parse that fails inside a formula, followed by another parse in the same process',
  breaks='parsers are reused and the mode is not restored when parsing fails inside a formula: later parses accept brace groups in text and drop spaces',
  edits=[('parser.go','''	defer func() {
		p.state = state
	}()

	math :=''','''
	math :='''),('parser.go','''			math.List = append(math.List, node)
		}
	}

	return math''','''			math.List = append(math.List, node)
		}
	}
	p.state = state

	return math'''),('parser.go','''	p := &parser{
		s:     newScanner(strings.NewReader(x)),
		state: normalState,
	}
	p.addBuiltinMacros()
	return p''','''	if shared.macros == nil {
		shared.addBuiltinMacros()
	}
	p := &shared
	p.s = newScanner(strings.NewReader(x))
	return p'''),('parser.go','''type parser struct {''','''// shared is reused between calls: filling the table of macros is costly.
var shared parser

type parser struct {''')],
  demo=demo('''	if _, err := latex.ParseExpr("{a}"); err == nil { fmt.Println("accepted before"); os.Exit(1) }
	latex.ParseExpr("$a}$")
	if _, err := latex.ParseExpr("{a}"); err == nil { fmt.Println("accepted after a failure"); os.Exit(1) }''')),
 dict(id='c01-case-fallback', property='C01', needs='an unknown macro that differs from a known one only in case',
  breaks='unknown macros are looked up again in lower case, so strings with unknown macros are accepted',
  edits=[('parser.go','''	macro, ok := p.macros[name]
	if !ok {''','''	macro, ok := p.macros[name]
	if !ok {
		macro, ok = p.macros[strings.ToLower(name)]
	}
	if !ok {''')],
  demo=demo('''	if _, err := latex.ParseExpr(`\\\\Frac{a}{b}`); err == nil { fmt.Println("accepted"); os.Exit(1) }'''.replace('\\\\\\\\','\\\\').replace('`\\\\F','`\\F'))),
 dict(id='c01-stray-bracket', property='C01', needs='a closing brace inside an optional argument',
  breaks='a stray closing brace ends an optional argument instead of being an error',
  edits=[('parser.go','''		case token.Rbrack:
			opt.Rbrack''','''		case token.Rbrack, token.Rbrace:
			opt.Rbrack''')],
  demo=demo('''	if _, err := latex.ParseExpr(`\\sqrt[3}{x}`); err == nil { fmt.Println("accepted"); os.Exit(1) }''')),
 dict(id='c02-collapse-spaces', property='C02', needs='two consecutive spaces in running text at top level',
  breaks='consecutive spaces in text collapse into one, so source characters are lost',
  edits=[('parser.go','''		node := p.parseNode(tok)
		if node == nil {
			continue
		}
		nodes = append(nodes, node)''','''		node := p.parseNode(tok)
		if node == nil {
			continue
		}
		if tok.Kind == token.Space && last == token.Space {
			continue
		}
		last = tok.Kind
		nodes = append(nodes, node)'''),('parser.go','''	var nodes ast.List
	for''','''	var (
		nodes ast.List
		last  token.Kind
	)
	for''')],
  demo=printdemo('"a  b"','`ast.List{ast.Word{"a"}, ast.Symbol{" "}, ast.Symbol{" "}, ast.Word{"b"}}`')),
 dict(id='c02-marks', property='C02', needs='a combining mark after a letter',
  breaks='combining marks are taken into words although they are not letters',
  edits=[('scanner.go','return unicode.IsLetter(ch) //','return unicode.IsLetter(ch) || i > 0 && unicode.IsMark(ch) //')],
  demo=demo('''	if _, err := latex.ParseExpr("e\\u0301"); err == nil { fmt.Println("accepted"); os.Exit(1) }''')),
 dict(id='c02-arg-space', property='C02', needs='a leading space in a macro argument outside formulas',
  breaks='spaces at the start of macro arguments in text are dropped',
  edits=[('parser.go','''			node := p.parseNode(p.s.tok)
			if node == nil {
				continue
			}
			arg.List = append(arg.List, node)''','''			if p.s.tok.Kind == token.Space && len(arg.List) == 0 {
				continue
			}
			node := p.parseNode(p.s.tok)
			if node == nil {
				continue
			}
			arg.List = append(arg.List, node)''')],
  demo=printdemo('`\\overline{ a}`','`ast.List{ast.Macro{"\\\\overline", Args:{ast.Symbol{" "}, ast.Word{"a"}}}}`')),
 dict(id='c03-nested-formula-mode', property='C03', needs='a formula inside an argument inside a formula, followed by a space or group in the outer one',
  breaks='leaving a nested formula returns to text mode instead of the mode before it',
  edits=[('parser.go','''		p.state = state
	}()''','''		p.state = normalState
	}()'''),('parser.go','''	state := p.state
	p.state = mathState''','''	p.state = mathState''')],
  demo=printdemo('`$\\overline{$a$ b}c d$`','`ast.List{ast.MathExpr{List:ast.Macro{"\\\\overline", Args:{ast.MathExpr{List:ast.Word{"a"}}, ast.Word{"b"}}}, ast.Word{"c"}, ast.Word{"d"}}}`')),
 dict(id='c03-mathscr', property='C03', needs='the macro \\mathscr with its argument',
  breaks='\\mathscr takes no argument',
  edits=[('macros.go','`\\mathscr`:     builtinMacro("A")','`\\mathscr`:     builtinMacro("")')],
  demo=printdemo('`$\\mathscr{a}$`','`ast.List{ast.MathExpr{List:ast.Macro{"\\\\mathscr", Args:{ast.Word{"a"}}}}}`')),
 dict(id='c03-opt-anywhere', property='C03', needs='a blank between a macro with an optional argument and a bracket',
  breaks='blanks before an optional argument are skipped, so a bracket that does not directly follow is taken as the argument',
  edits=[('parser.go','''	nxt := p.s.sc.Peek()
	if nxt != '[' {''','''	nxt := p.s.sc.Peek()
	for nxt == '\\n' || nxt == '\\t' {
		p.s.sc.Next()
		nxt = p.s.sc.Peek()
	}
	if nxt != '[' {''')],
  demo=demo('''	if _, err := latex.ParseExpr("\\\\sqrt\\n[3]{x}"); err == nil { fmt.Println("accepted"); os.Exit(1) }''')),
 dict(id='c03-brace-in-script', property='C03', needs='a group directly inside a braced superscript, followed by more content',
  breaks='a superscript whose only content so far is a group ends after it',
  edits=[('parser.go','''				list = append(list, node)
			}
		}
		hat.Node = list''','''				list = append(list, node)
				if lst, ok := node.(ast.List); ok && len(list) == 1 && p.s.sc.Peek() == '}' {
					list = lst
				}
			}
		}
		hat.Node = list''')],
  demo=printdemo('`$x^{{ab}}$`','`ast.List{ast.MathExpr{List:ast.Word{"x"}, ast.Sup{ast.List{ast.List{ast.Word{"ab"}}}}}}`')),
 dict(id='c04-word-runes', property='C04', needs='a word with non-ASCII letters',
  breaks='the end of a word is computed in characters, not bytes',
  edits=[('ast/ast.go','return token.Pos(int(x.WordPos) + len(x.Text))','return token.Pos(int(x.WordPos) + len([]rune(x.Text)))')],
  demo=demo('''	n, err := latex.ParseExpr("é x")
	if err != nil { fmt.Println(err); os.Exit(1) }
	if e := n.(ast.List)[0].End(); e != 2 { fmt.Println("end", e); os.Exit(1) }''',('fmt','os','github.com/go-latex/latex','github.com/go-latex/latex/ast'))),
 dict(id='c04-column', property='C04', needs='a line end anywhere before the node',
  breaks='positions are columns of the line instead of offsets in the source',
  edits=[('scanner.go','token.Pos(s.sc.Position.Offset)','token.Pos(s.sc.Position.Column - 1)')],
  demo=demo('''	n, err := latex.ParseExpr("a\\nb")
	if err != nil { fmt.Println(err); os.Exit(1) }
	if e := n.(ast.List)[1].Pos(); e != 2 { fmt.Println("pos", e); os.Exit(1) }''',('fmt','os','github.com/go-latex/latex','github.com/go-latex/latex/ast'))),
 dict(id='c04-optarg-open', property='C04', needs='an optional argument',
  breaks='the opening bracket of optional arguments is reported at the position of the macro',
  edits=[('parser.go','''	p.expect('[')
	opt.Lbrack = p.s.tok.Pos''','''	opt.Lbrack = macro.Name.End() - 1
	p.expect('[')''')],
  demo=demo('''	n, err := latex.ParseExpr("\\\\sqrt[3]{x}")
	if err != nil { fmt.Println(err); os.Exit(1) }
	if e := n.(ast.List)[0].(*ast.Macro).Args[0].Pos(); e != 5 { fmt.Println("pos", e); os.Exit(1) }''',('fmt','os','github.com/go-latex/latex','github.com/go-latex/latex/ast'))),
]
