exec(open('/verif/tools/seeds/front.py').read().split('SEEDS =')[0])
A=('bytes','fmt','os','github.com/go-latex/latex/ast')
def pd(expr, want): return demo('''	var b bytes.Buffer
	ast.Print(&b, %s)
	want := %s
	if b.String() != want { fmt.Printf("got %%s want %%s\\n", b.String(), want); os.Exit(1) }''' % (expr,want), A)
W=('fmt','os','github.com/go-latex/latex/ast')
VIS='''
type vis struct { id int; log *[]string; f func(v *vis, n ast.Node) ast.Visitor }
func (v *vis) Visit(n ast.Node) ast.Visitor { *v.log = append(*v.log, fmt.Sprintf("%d:%T", v.id, n)); return v.f(v, n) }
'''
def wd(expr, f, want): 
    return demo('''	var log []string
	ast.Walk(&vis{0, &log, func(v *vis, n ast.Node) ast.Visitor { %s }}, %s)
	want := %s
	if got := fmt.Sprint(log); got != want { fmt.Printf("got %%s want %%s\\n", got, want); os.Exit(1) }''' % (f, expr, want), W) + VIS
SEEDS=[
 dict(id='c05-script-visitor', property='C05', needs='a visitor that returns another visitor for a script node',
  breaks='the base of a superscript is visited by the visitor of its parent, not by the one its own visit returned',
  edits=[('ast/walk.go','''	if v = v.Visit(node); v == nil {
		return
	}
''','''	parent := v
	if v = v.Visit(node); v == nil {
		return
	}
'''),('ast/walk.go','''	case *Sup:
		if n.Node != nil {
			Walk(v, n.Node)''','''	case *Sup:
		if n.Node != nil {
			Walk(parent, n.Node)''')],
  demo=wd('&ast.Sup{Node: &ast.Word{}}','if n == nil { return nil }; return &vis{v.id + 1, v.log, v.f}','"[0:*ast.Sup 1:*ast.Word 2:<nil> 1:<nil>]"')),
 dict(id='c05-empty-optarg', property='C05', needs='an empty optional argument',
  breaks='no nil call is made after an optional argument without content',
  edits=[('ast/walk.go','''	case *OptArg:
		walkNodes(v, n.List)''','''	case *OptArg:
		if len(n.List) == 0 {
			return
		}
		walkNodes(v, n.List)''')],
  demo=wd('&ast.OptArg{}','return v','"[0:*ast.OptArg 0:<nil>]"')),
 dict(id='c05-prune-siblings', property='C05', needs='a visitor that declines the name of a macro that has arguments',
  breaks='declining the name of a macro also prunes its arguments',
  edits=[('ast/walk.go','''func walkNodes(v Visitor, nodes []Node) {''','''// pruner remembers whether its visitor declined a node.
type pruner struct {
	Visitor
	pruned bool
}

func (p *pruner) Visit(node Node) Visitor {
	w := p.Visitor.Visit(node)
	p.pruned = p.pruned || (w == nil && node != nil)
	return w
}

func walkNodes(v Visitor, nodes []Node) {'''),('ast/walk.go','''			Walk(v, n.Name)
		}
		walkNodes(v, n.Args)''','''			p := &pruner{Visitor: v}
			Walk(p, n.Name)
			if p.pruned {
				break
			}
		}
		walkNodes(v, n.Args)''')],
  demo=wd('&ast.Macro{Name: &ast.Ident{}, Args: ast.List{&ast.Word{}}}','if _, ok := n.(*ast.Ident); ok || n == nil { return nil }; return v','"[0:*ast.Macro 0:*ast.Ident 0:*ast.Word 0:<nil> 0:<nil>]"')),
 dict(id='c06-symbol-quote', property='C06', needs='a symbol whose text has a quote, a backslash or a control character',
  breaks='texts of symbols are printed between quotes but not quoted, so different trees print alike',
  edits=[('ast/ast.go','fmt.Fprintf(o, "ast.Symbol{%q}", node.Text)','fmt.Fprintf(o, "ast.Symbol{\\"%s\\"}", node.Text)')],
  demo=pd('&ast.Symbol{Text: "\\""}','`ast.Symbol{"\\""}`')),
 dict(id='c06-nested-list', property='C06', needs='a list that directly contains a list with a single element',
  breaks='lists with one list inside print without the inner level',
  edits=[('ast/ast.go','''	case List:
		fmt.Fprintf(o, "ast.List{")''','''	case List:
		if len(node) == 1 {
			if lst, ok := node[0].(List); ok {
				Print(o, lst)
				return
			}
		}
		fmt.Fprintf(o, "ast.List{")''')],
  demo=pd('ast.List{ast.List{&ast.Word{Text: "a"}}}','`ast.List{ast.List{ast.Word{"a"}}}`')),
 dict(id='c06-math-absent', property='C06', needs='a formula whose first child is absent',
  breaks='absent children at the start of a formula are not shown',
  edits=[('ast/ast.go','''			fmt.Fprintf(o, "List:")
			for i, n := range node.List {
				if i > 0 {''','''			fmt.Fprintf(o, "List:")
			for i, n := range node.List {
				if n == nil && i == 0 {
					continue
				}
				if i > 0 {''')],
  demo=pd('&ast.MathExpr{List: ast.List{nil, &ast.Word{Text: "a"}}}','`ast.MathExpr{List:<nil>, ast.Word{"a"}}`')),
]
