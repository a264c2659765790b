package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"unsafe"

	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/token"
)

func init() { modes["tree"] = treeMode }

type treeReq struct {
	K    []string `json:"k"`
	Q    []int    `json:"q"`
	L    []string `json:"l"`
	T    [][]byte `json:"t"`
	P    []int    `json:"pos"`
	Walk bool     `json:"walk"`
}

type builder struct {
	req  treeReq
	ids  map[interface{}]int
	made []ast.Node
}

func (b *builder) kids(i int) []int {
	var o []int
	for j, q := range b.req.Q {
		if q == i {
			o = append(o, j+1)
		}
	}
	return o
}

// key identifies a node: its pointer, or that of the storage of a list.
func key(n ast.Node) interface{} {
	if l, ok := n.(ast.List); ok {
		return unsafe.Pointer(unsafe.SliceData(l))
	}
	return n
}

func (b *builder) list(is []int) ast.List {
	o := make(ast.List, 0, len(is)+1)
	for _, i := range is {
		o = append(o, b.build(i))
	}
	return o
}

func (b *builder) build(i int) ast.Node {
	n := b.build1(i)
	if n != nil {
		b.ids[key(n)] = i
	}
	return n
}

func (b *builder) build1(i int) ast.Node {
	t := ""
	if len(b.req.T) > 0 {
		t = string(b.req.T[i-1])
	}
	p := token.Pos(0)
	if len(b.req.P) > 0 {
		p = token.Pos(b.req.P[i-1])
	}
	ks := b.kids(i)
	switch k := b.req.K[i-1]; k {
	case "nil":
		return nil
	case "list":
		return b.list(ks)
	case "arg":
		return &ast.Arg{Lbrace: p, Rbrace: p + 9, List: b.list(ks)}
	case "opt":
		return &ast.OptArg{Lbrack: p, Rbrack: p + 9, List: b.list(ks)}
	case "math":
		return &ast.MathExpr{Delim: "$", Left: p, Right: p + 7, List: b.list(ks)}
	case "ident":
		return &ast.Ident{NamePos: p, Name: t}
	case "word":
		return &ast.Word{WordPos: p, Text: t}
	case "lit":
		return &ast.Literal{LitPos: p, Text: t}
	case "sym":
		return &ast.Symbol{SymPos: p, Text: t}
	case "sup":
		return &ast.Sup{HatPos: p, Node: b.build(ks[0])}
	case "sub":
		return &ast.Sub{UnderPos: p, Node: b.build(ks[0])}
	case "mac":
		m := &ast.Macro{Args: b.list(ks[1:])}
		if id := b.build(ks[0]); id != nil {
			m.Name = id.(*ast.Ident)
		}
		return m
	default:
		panic("harness: unknown kind " + k)
	}
}

type visitor struct {
	b   *builder
	id  int
	log *[][2]int
}

func (v *visitor) Visit(n ast.Node) ast.Visitor {
	if n == nil {
		*v.log = append(*v.log, [2]int{v.id, 0})
		if v.id%2 == 0 { // the result of a nil call doesn't matter
			return nil
		}
		return v
	}
	i, ok := v.b.ids[key(n)]
	if !ok {
		i = -1
	}
	*v.log = append(*v.log, [2]int{v.id, i})
	if i < 0 {
		return nil
	}
	switch v.b.req.L[i-1] {
	case "stop":
		return nil
	case "new":
		return &visitor{v.b, i, v.log}
	}
	return v
}

func guarded(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	f()
	return ""
}

func treeMode(raw json.RawMessage) interface{} {
	b := &builder{ids: map[interface{}]int{}}
	must(json.Unmarshal(raw, &b.req))
	root := b.build(1)
	res := map[string]interface{}{}
	if b.req.Walk {
		log := [][2]int{}
		if m := guarded(func() { ast.Walk(&visitor{b, 0, &log}, root) }); m != "" {
			res["walkpanic"] = m
		}
		res["walk"] = log
		ilog := []int{}
		if m := guarded(func() {
			ast.Inspect(root, func(n ast.Node) bool {
				if n == nil {
					ilog = append(ilog, 0)
					return len(ilog)%2 == 0
				}
				i, ok := b.ids[key(n)]
				if !ok {
					i = -1
				}
				ilog = append(ilog, i)
				return i > 0 && b.req.L[i-1] != "stop"
			})
		}); m != "" {
			res["inspectpanic"] = m
		}
		res["inspect"] = ilog
		return res
	}
	var q []string
	for _, t := range b.req.T {
		q = append(q, strconv.Quote(string(t)))
	}
	res["q"] = q
	var o1, o2 bytes.Buffer
	if m := guarded(func() { ast.Print(&o1, root) }); m != "" {
		res["printpanic"] = m
	}
	// again, the same tree elsewhere in a source
	b2 := &builder{ids: map[interface{}]int{}, req: b.req}
	b2.req.P = make([]int, len(b.req.K))
	for i := range b2.req.P {
		b2.req.P[i] = 1000 - 7*i
	}
	guarded(func() { ast.Print(&o2, b2.build(1)) })
	res["p"] = o1.String()
	res["same"] = o1.String() == o2.String()
	return res
}
