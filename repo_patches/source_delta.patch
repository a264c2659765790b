From f73fe0955f58b721fad7eca7b6280debd7f92b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 01/28] fix: latex: ParseExpr returns an error instead of
 panicking

---
 parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 7cee11f..e418599 100644
--- a/parser.go
+++ b/parser.go
@@ -13,7 +13,15 @@ import (
 )
 
 // ParseExpr parses a simple LaTeX expression.
-func ParseExpr(x string) (ast.Node, error) {
+// ParseExpr returns an error if the expression is invalid or not supported.
+func ParseExpr(x string) (node ast.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			node = nil
+			err = fmt.Errorf("latex: could not parse %q: %v", x, e)
+		}
+	}()
+
 	p := newParser(x)
 	return p.parse()
 }
-- 
2.43.0


From bdd4104bef590d359256ebfe6f24b132a41f784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 02/28] fix: mtex: Parse returns an error instead of panicking

---
 mtex/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index fd53aad..3feb22d 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -42,7 +42,14 @@ func newParser(be font.Backend) *parser {
 	return p
 }
 
-func (p *parser) parse(x string, size, dpi float64) (tex.Node, error) {
+func (p *parser) parse(x string, size, dpi float64) (box tex.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			box = nil
+			err = fmt.Errorf("could not layout latex expression %q: %v", x, e)
+		}
+	}()
+
 	p.expr = x
 	node, err := latex.ParseExpr(x)
 	if err != nil {
-- 
2.43.0


From 0742076332e697380b912b591332a69d7ece1c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 03/28] fix: latex: comments end at the end of the line,
 whatever they contain

---
 scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scanner.go b/scanner.go
index d524ec1..de75653 100644
--- a/scanner.go
+++ b/scanner.go
@@ -175,10 +175,15 @@ func (s *texScanner) scanComment() string {
 	comment := new(strings.Builder)
 	comment.WriteString("%")
 	wsp := s.sc.Whitespace
+	mode := s.sc.Mode
 	defer func() {
 		s.sc.Whitespace = wsp
+		s.sc.Mode = mode
 	}()
+	// the content of a comment isn't tokenized:
+	// it runs, verbatim, up to the end of the line.
 	s.sc.Whitespace = 0
+	s.sc.Mode = 0
 
 	for {
 		s.next()
-- 
2.43.0


From a2001b3f2e6a1368ce2bc702b31dfba8386883c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 04/28] fix: ast: End of delimited nodes is after their closing
 delimiter

---
 ast/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 4205a29..b8f4cf3 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -67,7 +67,7 @@ type Arg struct {
 }
 
 func (x *Arg) Pos() token.Pos { return x.Lbrace }
-func (x *Arg) End() token.Pos { return x.Rbrace }
+func (x *Arg) End() token.Pos { return x.Rbrace + 1 }
 func (x *Arg) isNode()        {}
 
 // OptArg is an optional argument of a macro
@@ -80,7 +80,7 @@ type OptArg struct {
 }
 
 func (x *OptArg) Pos() token.Pos { return x.Lbrack }
-func (x *OptArg) End() token.Pos { return x.Rbrack }
+func (x *OptArg) End() token.Pos { return x.Rbrack + 1 }
 func (x *OptArg) isNode()        {}
 
 type Ident struct {
@@ -105,7 +105,7 @@ type MathExpr struct {
 
 func (x *MathExpr) isNode()        {}
 func (x *MathExpr) Pos() token.Pos { return x.Left }
-func (x *MathExpr) End() token.Pos { return x.Right }
+func (x *MathExpr) End() token.Pos { return x.Right + 1 }
 
 type Word struct {
 	WordPos token.Pos
-- 
2.43.0


From 81bb955b93d402d18ca0bd515a9eb48d6a28ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 05/28] fix: ast: Walk skips nil children, as documented

---
 ast/walk.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 7c95cb2..7fdd86e 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -25,9 +25,7 @@ func Walk(v Visitor, node Node) {
 
 	switch n := node.(type) {
 	case List:
-		for _, x := range n {
-			Walk(v, x)
-		}
+		walkNodes(v, n)
 
 	case *Macro:
 		if n.Name != nil {
@@ -51,10 +49,14 @@ func Walk(v Visitor, node Node) {
 		// nothing to do.
 
 	case *Sub:
-		Walk(v, n.Node)
+		if n.Node != nil {
+			Walk(v, n.Node)
+		}
 
 	case *Sup:
-		Walk(v, n.Node)
+		if n.Node != nil {
+			Walk(v, n.Node)
+		}
 
 	default:
 		panic(fmt.Errorf("unknown ast node %#v (type=%T)", n, n))
@@ -65,7 +67,9 @@ func Walk(v Visitor, node Node) {
 
 func walkNodes(v Visitor, nodes []Node) {
 	for _, x := range nodes {
-		Walk(v, x)
+		if x != nil {
+			Walk(v, x)
+		}
 	}
 }
 
-- 
2.43.0


From 8a44fad454a631fa74eddcdf7b1dc62c38f1574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 06/28] fix: latex: spaces and comments aren't scripts

---
 parser.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index e418599..199eecc 100644
--- a/parser.go
+++ b/parser.go
@@ -271,7 +271,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 		}
 		hat.Node = list
 	default:
-		hat.Node = p.parseNode(p.next())
+		hat.Node = p.parseScript()
 	}
 
 	return hat
@@ -301,12 +301,23 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 		}
 		sub.Node = list
 	default:
-		sub.Node = p.parseNode(p.next())
+		sub.Node = p.parseScript()
 	}
 
 	return sub
 }
 
+// parseScript parses the single node a sub- or superscript applies to,
+// skipping everything that doesn't produce a node (spaces, comments).
+func (p *parser) parseScript() ast.Node {
+	for {
+		node := p.parseNode(p.next())
+		if node != nil {
+			return node
+		}
+	}
+}
+
 func (p *parser) parseSymbol(tok token.Token) ast.Node {
 	return &ast.Symbol{
 		SymPos: tok.Pos,
-- 
2.43.0


From 8c28f990bb17bacb74d34cde50e07d0dfd70a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 07/28] fix: latex: scan decimal numbers, not Go literals

---
 scanner.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/scanner.go b/scanner.go
index de75653..95958e9 100644
--- a/scanner.go
+++ b/scanner.go
@@ -24,8 +24,7 @@ type texScanner struct {
 func newScanner(r io.Reader) *texScanner {
 	sc := &texScanner{}
 	sc.sc.Init(r)
-	sc.sc.Mode = (scanner.ScanIdents | scanner.ScanInts | scanner.ScanFloats)
-	sc.sc.Mode |= scanner.ScanStrings
+	sc.sc.Mode = scanner.ScanIdents | scanner.ScanStrings
 	//scanner.ScanRawStrings)
 	//	sc.sc.Error = func(s *scanner.Scanner, msg string) {}
 	sc.sc.IsIdentRune = func(ch rune, i int) bool {
@@ -86,8 +85,22 @@ func (s *texScanner) scan() token.Token {
 			Text: line,
 		}
 
+	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+		return token.Token{
+			Kind: token.Number,
+			Pos:  pos,
+			Text: s.scanNumber(),
+		}
+
 	case '$', '_', '=', '<', '>', '^', '/', '*', '-', '+',
 		'!', '?', '\'', ':', ',', ';', '.':
+		if s.r == '.' && isDigit(s.sc.Peek()) {
+			return token.Token{
+				Kind: token.Number,
+				Pos:  pos,
+				Text: s.scanNumber(),
+			}
+		}
 		return token.Token{
 			Kind: token.Symbol,
 			Pos:  pos,
@@ -130,12 +143,6 @@ func (s *texScanner) scan() token.Token {
 			Pos:  pos,
 			Text: s.sc.TokenText(),
 		}
-	case scanner.Int, scanner.Float:
-		return token.Token{
-			Kind: token.Number,
-			Pos:  pos,
-			Text: s.sc.TokenText(),
-		}
 	case scanner.String, scanner.Char:
 		return token.Token{
 			Kind: token.Other,
@@ -171,6 +178,31 @@ func (s *texScanner) scanMacro() token.Token {
 	}
 }
 
+// scanNumber scans a decimal number: digits with, at most, one dot.
+func (s *texScanner) scanNumber() string {
+	var (
+		num = new(strings.Builder)
+		dot = s.r == '.'
+	)
+	num.WriteRune(s.r)
+	for {
+		r := s.sc.Peek()
+		switch {
+		case isDigit(r):
+			// ok.
+		case r == '.' && !dot:
+			dot = true
+		default:
+			return num.String()
+		}
+		num.WriteRune(s.sc.Next())
+	}
+}
+
+func isDigit(r rune) bool {
+	return '0' <= r && r <= '9'
+}
+
 func (s *texScanner) scanComment() string {
 	comment := new(strings.Builder)
 	comment.WriteString("%")
-- 
2.43.0


From 8c591d94148beefa5c70f4877e3ae000e0bdf014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 08/28] fix: latex: the name of a macro immediately follows its
 backslash

---
 scanner.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scanner.go b/scanner.go
index 95958e9..769e7ee 100644
--- a/scanner.go
+++ b/scanner.go
@@ -167,7 +167,17 @@ func (s *texScanner) scanMacro() token.Token {
 	var (
 		macro = new(strings.Builder)
 		pos   = s.pos()
+		wsp   = s.sc.Whitespace
+		mode  = s.sc.Mode
 	)
+	defer func() {
+		s.sc.Whitespace = wsp
+		s.sc.Mode = mode
+	}()
+	// the name of a macro immediately follows the backslash: it is
+	// either a run of letters or a single character.
+	s.sc.Whitespace = 0
+	s.sc.Mode = scanner.ScanIdents
 	s.next()
 	macro.WriteString(`\` + s.sc.TokenText())
 
-- 
2.43.0


From 8ba2750fdb941766a9e62ef997f61efe780c76a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 09/28] fix: latex: a control space is a macro, not ignorable
 space

---
 scanner.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/scanner.go b/scanner.go
index 769e7ee..13939f4 100644
--- a/scanner.go
+++ b/scanner.go
@@ -58,18 +58,7 @@ func (s *texScanner) scan() token.Token {
 			Text: s.sc.TokenText(),
 		}
 	case '\\':
-		nxt := s.sc.Peek()
-		switch nxt {
-		case ' ':
-			s.next()
-			return token.Token{
-				Kind: token.Space,
-				Pos:  pos,
-				Text: `\ `,
-			}
-		default:
-			return s.scanMacro()
-		}
+		return s.scanMacro()
 	case ' ':
 		return token.Token{
 			Kind: token.Space,
-- 
2.43.0


From 61f4beef65e8f688c766ad5328ac863363ac8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 10/28] fix: mtex: do not drop the content of {...} groups in
 formulas

---
 mtex/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 3feb22d..fa48224 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -110,7 +110,7 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.state.Font.Type = rcparams("mathtext.default").(string)
 
 		for _, x := range n.List {
-			v.Visit(x)
+			ast.Walk(v, x)
 		}
 		v.math = oldm
 		v.state.Font.Type = oldt
-- 
2.43.0


From 1b57e0cc14267e27ee8ab290874746aed6d05372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 11/28] fix: mtex: do not drop the argument of functions

---
 mtex/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index fa48224..50844a5 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -294,11 +294,15 @@ func handleCustomSpace(p *parser, node ast.Node, state tex.State, math bool) tex
 
 func handleFunction(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
 	macro := node.(*ast.Macro)
-	state.Font.Type = "rm"
+	rm := state
+	rm.Font.Type = "rm"
 	fun := macro.Name.Name[1:] // drop leading `\`
-	nodes := make([]tex.Node, 0, len(fun))
+	nodes := make([]tex.Node, 0, len(fun)+len(macro.Args))
 	for _, c := range fun {
-		nodes = append(nodes, tex.NewChar(string(c), state, math))
+		nodes = append(nodes, tex.NewChar(string(c), rm, math))
+	}
+	for _, arg := range macro.Args {
+		nodes = append(nodes, p.handleNode(arg.(*ast.Arg).List, state, math))
 	}
 	return tex.HListOf(nodes, true)
 }
-- 
2.43.0


From 4d6c8d092dcf531c7114f615ff282e8b42006a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 12/28] fix: mtex: decide on the spacing of each dot from its
 own position

---
 mtex/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 50844a5..a40d6ec 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -16,6 +16,7 @@ import (
 	"github.com/go-latex/latex/internal/tex2unicode"
 	"github.com/go-latex/latex/mtex/symbols"
 	"github.com/go-latex/latex/tex"
+	"github.com/go-latex/latex/token"
 )
 
 // Parse parses a LaTeX math expression and returns the TeX-like box model
@@ -98,8 +99,8 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.nodes = append(v.nodes, tex.HListOf(nodes, true))
 	case *ast.Literal:
 		h := handlerFunc(handleSymbol)
-		for _, c := range n.Text {
-			n := &ast.Literal{Text: string(c)}
+		for i, c := range n.Text {
+			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}
 			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
 		}
 
@@ -230,7 +231,6 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	case symbols.PunctuationSymbols.Has(sym):
 		switch sym {
 		case ".":
-			pos := strings.Index(p.expr[pos:], sym)
 			if (pos > 0 && isdigit(p.expr[pos-1])) &&
 				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {
 				// do not space dots as decimal separators.
-- 
2.43.0


From caf51a001f80fa54165dec7189da7620f0229128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 13/28] fix: tex2unicode: accept any single unicode letter in
 math mode

---
 internal/tex2unicode/utf8.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 9ce7822..d02f669 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -29,8 +29,8 @@ func Index(v string, math bool) rune {
 		return 0x2212
 	}
 
-	if len(v) == 1 {
-		r, _ := utf8.DecodeRune([]byte(v))
+	if utf8.RuneCountInString(v) == 1 {
+		r, _ := utf8.DecodeRuneInString(v)
 		if r != utf8.RuneError {
 			return r
 		}
-- 
2.43.0


From 62a11cff0e5f3934f5fc4f5b89af3b3876f53325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 14/28] fix: tex2unicode: resolve TeX symbols outside of math
 mode too

---
 internal/tex2unicode/utf8.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index d02f669..766d080 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -13,19 +13,12 @@ import (
 
 // Index associates a LaTeX symbol or unicode letter to a unicode rune.
 func Index(v string, math bool) rune {
-	if !math {
-		r, _ := utf8.DecodeRune([]byte(v))
-		if r == utf8.RuneError {
-			panic(fmt.Errorf("tex: invalid rune %q", v))
-		}
-		return r
-	}
 	// From UTF #25: U+2212 minus sign is the preferred
 	// representation of the unary and binary minus sign rather than
 	// the ASCII-derived U+002D hyphen-minus, because minus sign is
 	// unambiguous and because it is rendered with a more desirable
 	// length, usually longer than a hyphen.
-	if v == "-" {
+	if math && v == "-" {
 		return 0x2212
 	}
 
-- 
2.43.0


From c094a6a69a4ebac1fa012859dde1165f2467019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 15/28] fix: tex2unicode: correct the code points of
 \leftbrace, \lnapprox and \gnapprox

---
 internal/tex2unicode/utf8.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 766d080..df81a91 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -80,8 +80,8 @@ var (
 		`succnapprox`:              0x2aba,
 		`subsetneqq`:               0x2acb,
 		`supsetneqq`:               0x2acc,
-		`lnapprox`:                 0x2ab9,
-		`gnapprox`:                 0x2aba,
+		`lnapprox`:                 0x2a89,
+		`gnapprox`:                 0x2a8a,
 		`longleftarrow`:            0x27f5,
 		`longrightarrow`:           0x27f6,
 		`longleftrightarrow`:       0x27f7,
@@ -600,7 +600,7 @@ var (
 		`bigoplus`:                 10753,
 		`leftangle`:                10216,
 		`rightangle`:               10217,
-		`leftbrace`:                124,
+		`leftbrace`:                123,
 		`rightbrace`:               125,
 		`jmath`:                    567,
 		`bigodot`:                  10752,
-- 
2.43.0


From 130dd8dbbacebcb184dc57aabd5b9d666c835658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 16/28] fix: tex: draw the rules of horizontal lists around the
 baseline

---
 tex/box.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index e433113..26d4dbd 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1059,17 +1059,18 @@ func (ship *Ship) hlistOut(box Tree) {
 			if math.IsInf(ruleDepth, 0) {
 				ruleDepth = box.Depth()
 			}
-			if ruleHeight > 0 && ruleWidth > 0 {
-				ship.cur.v = baseLine + ruleDepth
+			// the rule spans [height, depth] around the baseline.
+			if ruleHeight+ruleDepth > 0 && ruleWidth > 0 {
 				type renderXYWH interface {
 					render(x, y, w, h float64)
 				}
-				node.(renderXYWH).render(
-					ship.cur.h+ship.off.h,
-					ship.cur.v+ship.off.v,
-					ruleWidth, ruleHeight,
-				)
-				ship.cur.v = baseLine
+				if p, ok := node.(renderXYWH); ok {
+					p.render(
+						ship.cur.h+ship.off.h,
+						baseLine-ruleHeight+ship.off.v,
+						ruleWidth, ruleHeight+ruleDepth,
+					)
+				}
 			}
 			ship.cur.h += ruleWidth
 		}
-- 
2.43.0


From a9d8430083958959552e547438b5dbff9c3240a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 17/28] fix: tex: always advance by the size of boxes and rules
 in vertical lists

---
 tex/box.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index 26d4dbd..76ecb92 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1152,8 +1152,8 @@ func (ship *Ship) vlistOut(box Tree) {
 				ruleWidth = box.Width()
 			}
 			ruleHeight += ruleDepth
-			if ruleHeight > 0 && ruleDepth > 0 {
-				ship.cur.v += ruleHeight
+			ship.cur.v += ruleHeight
+			if ruleHeight > 0 && ruleWidth > 0 {
 				type renderXYWH interface {
 					render(x, y, w, h float64)
 				}
-- 
2.43.0


From a70b142cc617c41734611ed3e55197617c04c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 18/28] fix: ttf: scale kerning with the font size

---
 font/ttf/ttf.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index ef16811..94b9012 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -251,7 +251,8 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 		const math = true
 		info1 := be.getInfo(sym1, ft1, dpi, math)
 		info2 := be.getInfo(sym2, ft2, dpi, math)
-		scale := fixed.Int26_6(info1.font.UnitsPerEm())
+		upem := info1.font.UnitsPerEm()
+		scale := fixed.Int26_6(upem)
 		var buf sfnt.Buffer
 		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, scale, hintingNone)
 		if err != nil {
@@ -262,7 +263,8 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 				sym1, sym2, err,
 			))
 		}
-		return float64(k) / 64
+		// k is in font units: scale it to the size of the font.
+		return float64(k) * ft1.Size / float64(upem)
 	}
 	return 0
 }
-- 
2.43.0


From 5b08321ee65a3d53b5bcf4ebbbade99055c9c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 19/28] fix: ttf: do not kern glyphs from different fonts

---
 font/ttf/ttf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index 94b9012..d71ab5f 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -251,6 +251,10 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 		const math = true
 		info1 := be.getInfo(sym1, ft1, dpi, math)
 		info2 := be.getInfo(sym2, ft2, dpi, math)
+		if info1.font != info2.font {
+			// glyph indices are only meaningful within a given font.
+			return 0
+		}
 		upem := info1.font.UnitsPerEm()
 		scale := fixed.Int26_6(upem)
 		var buf sfnt.Buffer
-- 
2.43.0


From 9828d4402cde88751d31570341346fbef1dfbb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 20/28] fix: mtex: do not space binary operators at the start
 of expressions

---
 mtex/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index a40d6ec..b6d63c9 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -215,7 +215,7 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 			prev = string(p.expr[i])
 		}
 		switch {
-		case symbols.BinaryOperators.Has(sym) && (len(strings.Split(p.expr[:pos], " ")) == 0 ||
+		case symbols.BinaryOperators.Has(sym) && (i < 0 ||
 			prev == "{" ||
 			symbols.LeftDelim.Has(prev)):
 			// binary operators at start of string should not be spaced
-- 
2.43.0


From 7c7f3d28ce318048a2b733a344a7984df4b7df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 21/28] fix: tex: scale the advance of characters with their
 size

---
 tex/box.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tex/box.go b/tex/box.go
index 76ecb92..3fe757c 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -234,6 +234,7 @@ func (box *Char) Shrink() {
 	box.size--
 	if box.size < numSizeLevels {
 		box.font.Size *= shrinkFactor
+		box.metrics.Advance *= shrinkFactor
 		box.width *= shrinkFactor
 		box.height *= shrinkFactor
 		box.depth *= shrinkFactor
@@ -243,6 +244,7 @@ func (box *Char) Shrink() {
 func (box *Char) Grow() {
 	box.size++
 	box.font.Size *= growFactor
+	box.metrics.Advance *= growFactor
 	box.width *= growFactor
 	box.height *= growFactor
 	box.depth *= growFactor
-- 
2.43.0


From d19f1c26474d215b7663bd36729b1857df4dd28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 22/28] fix: ast: print macros without a name

---
 ast/ast.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index b8f4cf3..5c7d832 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -175,7 +175,12 @@ func Print(o io.Writer, node Node) {
 		fmt.Fprintf(o, "ast.Ident{%q}", node.Name)
 
 	case *Macro:
-		fmt.Fprintf(o, "ast.Macro{%q", node.Name.Name)
+		switch node.Name {
+		case nil:
+			fmt.Fprintf(o, "ast.Macro{<nil>")
+		default:
+			fmt.Fprintf(o, "ast.Macro{%q", node.Name.Name)
+		}
 		switch len(node.Args) {
 		case 0:
 			// no-op
-- 
2.43.0


From b480fc73a72372f826428d7b2cffd202545f10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 23/28] fix: drawtex/drawimg: cut rectangles off at the top and
 left edges

The rasterizer rounds coordinates towards zero, so that an edge of a
rectangle less than a pixel above or left of the image was taken to be
inside its first row or column: rectangles outside of the image left a
mark in it, and others covered too much of its first row or column.
---
 drawtex/drawimg/drawimg.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index ba57410..255b1c5 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -84,12 +84,20 @@ func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {
 
 func drawRect(ctx *gg.Context, dpi float64, op drawtex.RectOp) {
 	dpi /= 72
+	// the rasterizer rounds coordinates towards zero: what lies left of or
+	// above the image must be cut off before it gets there.
+	var (
+		x1 = math.Max(0, op.X1*dpi)
+		y1 = math.Max(0, op.Y1*dpi)
+		x2 = math.Max(0, op.X2*dpi)
+		y2 = math.Max(0, op.Y2*dpi)
+	)
 	ctx.NewSubPath()
-	ctx.MoveTo(op.X1*dpi, op.Y1*dpi)
-	ctx.LineTo(op.X2*dpi, op.Y1*dpi)
-	ctx.LineTo(op.X2*dpi, op.Y2*dpi)
-	ctx.LineTo(op.X1*dpi, op.Y2*dpi)
-	ctx.LineTo(op.X1*dpi, op.Y1*dpi)
+	ctx.MoveTo(x1, y1)
+	ctx.LineTo(x2, y1)
+	ctx.LineTo(x2, y2)
+	ctx.LineTo(x1, y2)
+	ctx.LineTo(x1, y1)
 	ctx.ClosePath()
 	ctx.Fill()
 	//	log.Printf("draw-rect: pt1=(%g, %g) -> (%g, %g)", op.X1, op.Y1, op.X2, op.Y2)
-- 
2.43.0


From 861a80f69660f8a646e95cb202939a0c52f50b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 24/28] fix: ttf: report the x-height as a positive length

sfnt gives a negative value only for fonts whose x-height is derived from
the bounds of a glyph: all others got a negative x-height.
---
 font/ttf/ttf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index d71ab5f..33a842f 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -8,6 +8,7 @@ package ttf // import "github.com/go-latex/latex/font/ttf"
 import (
 	"errors"
 	"fmt"
+	"math"
 	"unicode"
 
 	"github.com/go-latex/latex/drawtex"
@@ -188,7 +189,9 @@ func (be *Backend) XHeight(fnt font.Font, dpi float64) float64 {
 	}
 	defer face.Close()
 
-	return float64(-face.Metrics().XHeight) / 64
+	// fonts without an explicit x-height report the bound of a glyph,
+	// in a y-axis pointing downwards.
+	return math.Abs(float64(face.Metrics().XHeight)) / 64
 }
 
 const (
-- 
2.43.0


From 2f75546e1b93eac8494169eacb6835f4d60756a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 25/28] fix: ttf: do not overflow the advance of wide glyphs

At 6 pixels per font unit, advances of more than 4/3 em did not fit and came
out negative.
---
 font/ttf/ttf.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index 33a842f..79905a9 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -118,12 +118,14 @@ func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool)
 		panic(fmt.Errorf("could not load glyph %q: %+v", rn, err))
 	}
 
-	adv, err := ft.GlyphAdvance(&buf, idx, fixed.I(ppem), hinting)
+	// retrieve the advance in font units: scaled up to ppem, the advance of
+	// wide glyphs overflows.
+	fupe := fixed.Int26_6(ft.UnitsPerEm())
+	adv, err := ft.GlyphAdvance(&buf, idx, fupe, hinting)
 	if err != nil {
 		panic(fmt.Errorf("could not retrieve glyph advance for %q: %+v", rn, err))
 	}
 
-	fupe := fixed.Int26_6(ft.UnitsPerEm())
 	_, err = ft.LoadGlyph(&buf, idx, fupe, nil)
 	if err != nil {
 		panic(fmt.Errorf("could not load glyph %q: %+v", rn, err))
@@ -150,7 +152,7 @@ func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool)
 	}
 
 	me := font.Metrics{
-		Advance: float64(adv) / 65536 * fnt.Size / 12,
+		Advance: float64(adv) / 2048 * fnt.Size,
 		Height:  height,
 		Width:   width,
 		XMin:    xmin,
-- 
2.43.0


From eb9d3e1741bd9dacd0ed4cb1ae2d8da25b7c71ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 26/28] fix: tex2unicode: only strip the backslash in front of
 a name

---
 internal/tex2unicode/utf8.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index df81a91..fee0e8c 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -29,7 +29,7 @@ func Index(v string, math bool) rune {
 		}
 	}
 
-	r, ok := tex2uni[strings.Replace(v, `\`, "", 1)]
+	r, ok := tex2uni[strings.TrimPrefix(v, `\`)]
 	if ok {
 		return r
 	}
-- 
2.43.0


From 2f66510fd6716d319e7f294f9e1efa1afd4277bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:35 +0000
Subject: [PATCH 27/28] fix: mtex-render: put glyphs of the vector drawing on
 their baseline

Labels were placed by the size of their font instead of its ascent, and
rules shifted to match it at one size only: large delimiters and radicals,
and script-size glyphs, stood beside what they belong to.
---
 cmd/mtex-render/gio.go | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/cmd/mtex-render/gio.go b/cmd/mtex-render/gio.go
index 04d48ab..0ce90cd 100644
--- a/cmd/mtex-render/gio.go
+++ b/cmd/mtex-render/gio.go
@@ -27,9 +27,6 @@ import (
 	"gioui.org/unit"
 	"gioui.org/widget"
 	"gioui.org/widget/material"
-	"golang.org/x/image/font"
-	"golang.org/x/image/font/sfnt"
-	"golang.org/x/image/math/fixed"
 
 	"github.com/go-latex/latex/drawtex"
 	"github.com/go-latex/latex/drawtex/drawimg"
@@ -262,8 +259,6 @@ type gioRenderer struct {
 	col color.NRGBA
 	th  *material.Theme
 	ft  *ttf.Fonts
-
-	offset f32.Point
 }
 
 func newGioRenderer(gtx C, th *material.Theme, txt string) *gioRenderer {
@@ -281,16 +276,6 @@ func newGioRenderer(gtx C, th *material.Theme, txt string) *gioRenderer {
 	}
 	r.th.TextSize = th.TextSize
 
-	ppem := fixed.Int26_6(r.ft.Rm.UnitsPerEm())
-
-	met, err := r.ft.Rm.Metrics(new(sfnt.Buffer), ppem, font.HintingNone)
-	if err != nil {
-		panic(fmt.Errorf("could not extract font extents: %+v", err))
-	}
-	scale := float32(th.TextSize.V) / float32(ppem)
-
-	// FIXME(sbinet): find out where these -1 offsets come from.
-	r.offset = f32.Pt(-1, -scale*float32(met.Height-met.Ascent)-1)
 	return &r
 }
 
@@ -331,9 +316,6 @@ func (r *gioRenderer) Render(width, height, dpi float64, c *drawtex.Canvas) erro
 
 func (r *gioRenderer) drawGlyph(dpi float64, tex drawtex.GlyphOp) {
 	defer op.Save(r.gtx.Ops).Load()
-	x := tex.X * dpi
-	y := (tex.Y - tex.Glyph.Size) * dpi
-	op.Offset(r.pt(x, y)).Add(r.gtx.Ops)
 	lbl := material.Label(
 		r.th,
 		unit.Px(float32(tex.Glyph.Size*dpi)),
@@ -344,7 +326,16 @@ func (r *gioRenderer) drawGlyph(dpi float64, tex drawtex.GlyphOp) {
 	}
 	lbl.Color = r.col
 	lbl.Alignment = text.Start
-	lbl.Layout(r.gtx)
+
+	// the label hangs from its top: put its baseline where the glyph stands.
+	rec := op.Record(r.gtx.Ops)
+	dim := lbl.Layout(r.gtx)
+	call := rec.Stop()
+
+	x := tex.X * dpi
+	y := tex.Y*dpi - float64(dim.Size.Y-dim.Baseline)
+	op.Offset(r.pt(x, y)).Add(r.gtx.Ops)
+	call.Add(r.gtx.Ops)
 }
 
 func (r *gioRenderer) drawRect(dpi float64, tex drawtex.RectOp) {
@@ -352,10 +343,10 @@ func (r *gioRenderer) drawRect(dpi float64, tex drawtex.RectOp) {
 
 	var p clip.Path
 	p.Begin(r.gtx.Ops)
-	p.MoveTo(r.pt(tex.X1*dpi, tex.Y1*dpi).Add(r.offset))
-	p.LineTo(r.pt(tex.X2*dpi, tex.Y1*dpi).Add(r.offset))
-	p.LineTo(r.pt(tex.X2*dpi, tex.Y2*dpi).Add(r.offset))
-	p.LineTo(r.pt(tex.X1*dpi, tex.Y2*dpi).Add(r.offset))
+	p.MoveTo(r.pt(tex.X1*dpi, tex.Y1*dpi))
+	p.LineTo(r.pt(tex.X2*dpi, tex.Y1*dpi))
+	p.LineTo(r.pt(tex.X2*dpi, tex.Y2*dpi))
+	p.LineTo(r.pt(tex.X1*dpi, tex.Y2*dpi))
 	p.Close()
 	clip.Outline{
 		Path: p.End(),
-- 
2.43.0


From 5c6d266b41cf04b917eb4eca1c2862bc8b074627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:46 +0000
Subject: [PATCH 28/28] fix: tex: output the content of a SubSuperCluster
 inside of a list

Only a cluster at the root was output; inside of another list it took its
place and left it empty.
---
 tex/box.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tex/box.go b/tex/box.go
index 3fe757c..87a7d9b 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1000,6 +1000,9 @@ func (ship *Ship) hlistOut(box Tree) {
 	ship.maxPush = maxInt(ship.cur.s, ship.maxPush)
 
 	for _, node := range box.Nodes() {
+		if cluster, ok := node.(*SubSuperCluster); ok {
+			node = cluster.HList
+		}
 		switch node := node.(type) {
 		case *Char:
 			node.Render(ship.cur.h+ship.off.h, ship.cur.v+ship.off.v)
@@ -1094,6 +1097,9 @@ func (ship *Ship) vlistOut(box Tree) {
 	ship.cur.v -= box.Height()
 
 	for _, node := range box.Nodes() {
+		if cluster, ok := node.(*SubSuperCluster); ok {
+			node = cluster.HList
+		}
 		switch node := node.(type) {
 		case *Kern:
 			ship.cur.v += node.Width()
-- 
2.43.0

