import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); 
    P.append(d)

p("C01","Any string parses and typesets to a result or to an error, never a panic",
 "Parsing any string, and typesetting any string, returns either a complete result or an error (never both, never neither), without panicking or hanging and without depending on earlier calls. A string is accepted by the parser exactly when every character, macro, delimiter and script in it is supported: a stray closing brace, a brace group in running text, an unknown macro, a missing mandatory macro argument, a script with nothing to apply to, or an unsupported character is an error, and anything else is accepted (a group, argument or formula still open at the end of the input simply ends there).",
 ["inputs","histories"],"every source string (any bytes), every history of earlier calls",
 "The tests parse about 40 well-formed strings; they contain no malformed input at all, so neither the error path nor the exact frontier between accepted and rejected strings is exercised.",
 ["latex.go","parser.go","scanner.go","macros.go","mtex/parser.go"],
 [("recursive descent over the token stream","parser.go: parseNode and the parse* family"),("panics turned into errors at the API boundary","parser.go: ParseExpr; mtex/parser.go: parse"),("macro table with arities","macros.go: addBuiltinMacros")],
 ["latex.ParseExpr result and error","mtex.Parse result and error"])

p("C02","Parsing neither loses, invents, alters nor reorders source text",
 "The words, numbers, symbols and macro names of a parsed tree, read from left to right, are exactly the source text from which only comments (a percent sign up to the end of its line), insignificant white space (tabs and line ends everywhere, plain spaces inside formulas) and the delimiters of groups, arguments, formulas and scripts have been taken out. A word is a maximal run of letters of any script, a number is a maximal run of digits with at most one decimal point, a macro name is a backslash with the run of letters or the single character that follows it, and every other character is a symbol of its own.",
 ["inputs"],"every accepted source string: any mix of scripts, comments, line-ending conventions, numbers and macros, at any nesting depth",
 "The parser tests compare a few dozen trees; no test has a comment inside a formula, CRLF line ends, digits next to letters or scripts, non-ASCII letters, or adjacent numbers, and comments are only logged, not compared.",
 ["scanner.go","parser.go"],
 [("tokenizer","scanner.go: scan, scanMacro, scanNumber, scanComment"),("space handling by mode","parser.go: parseNode")],
 ["leaf sequence of the tree returned by latex.ParseExpr"])

p("C03","Groups, macro arguments, scripts and formulas nest exactly as written",
 "The tree mirrors the delimiters of the source: every formula, brace group, mandatory or optional macro argument and script contains exactly the nodes written between its own opening and matching closing delimiter, in order, whatever is nested inside, and parsing resumes right after that delimiter. Each macro takes exactly the arguments its definition calls for (an optional one only when its bracket directly follows), an unbraced script applies to exactly the next node, and whether spaces count and braces group depends only on being inside a formula, a mode that is left when the formula that entered it closes.",
 ["inputs"],"every accepted source string, every macro of the language, every nesting of constructs",
 "The parser tests build about 35 fixed trees, at most four levels deep, for a handful of the roughly 650 macros; the mode being restored after nested formulas, optional brackets holding nested constructs and scripts on scripts are not covered.",
 ["parser.go","macros.go"],
 [("argument, script and group loops","parser.go: parseMacroArg, parseOptMacroArg, parseSup, parseSub, parseMathLbrace, parseMathExpr"),("arity table","macros.go: addBuiltinMacros, builtinMacro.parseMacro"),("math/normal mode","parser.go: parser.state")],
 ["shape of the tree returned by latex.ParseExpr"],
 [("state","are we inside a formula","parser.go: parser.state")])

p("C04","Source positions of nodes point at the text that produced them",
 "For every node of a parsed tree, its start is the byte offset of the first character of its source text, and for every word, number, symbol, macro name, delimited argument and formula its end is the offset just after its last character, so that the slice between the two is that node's own source text. Siblings are in increasing, non-overlapping position order, and a child of a macro, argument, formula or script lies inside its parent's extent.",
 ["inputs"],"every accepted source string, including multi-byte characters, comments, every line-ending convention and deep nesting",
 "One test compares the start offsets of five ASCII snippets; end offsets, delimiters, multi-byte text and positions after comments are never compared.",
 ["ast/ast.go","parser.go","scanner.go","token/token.go"],
 [("byte offsets of tokens","scanner.go: pos"),("Pos/End of node kinds","ast/ast.go")],
 ["Pos() and End() of every node, Left/Right, Lbrace/Rbrace, Lbrack/Rbrack"])

p("C05","Tree traversal visits every node once, in order, with paired callbacks",
 "Walking a tree calls the visitor on each non-nil node reached exactly once, parents before children and siblings in source order, and calls the visitor obtained for a node once with nil after all of that node's children, and only then. When the visitor declines a node, nothing below it is visited, no nil call is made for it, and its siblings are unaffected; each node's children are visited by the visitor its own visit returned; and the function-based form makes the same calls in the same order.",
 ["inputs","programs"],"every tree (parsed or hand-built, with absent children and every node kind), every visitor, whether it prunes, switches visitors or stops anywhere",
 "The tests walk two small trees with visitors that never prune or change; absent children, scripts, optional arguments and pruning are not covered.",
 ["ast/walk.go"],
 [("depth-first recursion","ast/walk.go: Walk, walkNodes"),("function adapter","ast/walk.go: inspector, Inspect")],
 ["sequence of Visit calls and their visitor identity"])

p("C06","Printing a tree is total, deterministic and shows all of its content",
 "Printing any tree writes a rendering in which every node appears once, in tree order and with its kind, nesting and quoted text, so that two trees with different structure or text print differently and equal trees print equally, whatever their positions. Absent nodes print as a visible placeholder, and empty lists, formulas and arguments print as empty.",
 ["inputs"],"every tree of the supported node kinds, parsed or hand-built, with any text including quotes, backslashes, control and non-ASCII characters",
 "The print test compares thirteen tiny trees.",
 ["ast/ast.go"],
 [("recursive printer","ast/ast.go: Print")],
 ["text written by ast.Print"])

p("C07","Horizontal packing measures exactly the boxes it contains",
 "A horizontal list's natural width is the sum of the widths of its children; its height and depth are the largest height above, and depth below, the common baseline among its children after applying each child list's vertical shift (never less than zero, and ignoring children whose extent is running). Packing to an exact width gives exactly that width, packing with extra width gives the natural width plus the extra, and packing never changes the children or depends on earlier packings.",
 ["inputs","histories"],"every list of children of every kind and nesting, every requested width, every earlier packing of the same list",
 "The tests check the three dimensions of about forty fixed boxes; lists with shifted, running, empty or negative children and repeated packings are not combined.",
 ["tex/box.go"],
 [("dimension accumulation per node kind","tex/box.go: hpackDims methods"),("HPack","tex/box.go: HList.HPack")],
 ["Width/Height/Depth of tex.HListOf(...) before and after HPack"])

p("C08","Vertical packing measures exactly the boxes it stacks",
 "A vertical list's natural height is everything stacked above the last item's baseline (heights, glue and kerns, plus the depth of every item but the last), its depth is the depth of the last box, reset by a kern or glue, and its width is the largest finite width of a child. Packing to an exact or extra height gives exactly that height, a depth above the allowed maximum is capped there with the excess counted as stacked height, and packing never changes the children or depends on earlier packings.",
 ["inputs","histories"],"every list of stackable children of every kind and nesting, every requested height and depth limit, every earlier packing",
 "The tests check a few fixed vertical lists; depth limits, running rules, nested and repeated packings are not combined.",
 ["tex/box.go"],
 [("dimension accumulation per node kind","tex/box.go: vpackDims methods"),("VPack","tex/box.go: VList.VPack")],
 ["Width/Height/Depth of tex.VListOf(...) before and after VPack"])

p("C09","Glue stretches or shrinks exactly to fill the requested size",
 "When a list is packed to a size different from its natural one, only glue of the highest infinity order present for that direction takes part, in proportion to its stretch (or shrink) and by a common ratio that makes the shares add up to exactly the difference; when it is packed to its natural size, or no glue can take part, no glue is set. When the list is output, every item after a glue is displaced by the accumulated share of the glue before it, rounded to whole units, so that the displacements add up to the difference to within half a unit, and glue that does not take part keeps its natural width.",
 ["inputs","histories"],"every combination of glue kinds, orders, positions and requested sizes, horizontal and vertical, after any earlier packing",
 "Order selection is tested on six fixed vectors; no test looks at the position of an item after a glue.",
 ["tex/box.go","tex/utils.go"],
 [("order selection","tex/box.go: determineOrder, List.setGlue"),("cumulative rounding","tex/box.go: Ship.hlistOut, Ship.vlistOut")],
 ["GlueOrder/GlueSign/GlueSet","positions given to the drawing backend"])

p("C10","Kerning only inserts kerns: content, order and inputs are preserved",
 "Building a horizontal list with kerning keeps every given node, in order, and inserts after each character exactly one kern, equal to its advance minus its drawn width plus the font's kerning with the directly following character (accented ones included; nothing for other neighbours or at the end), unless that amount is zero. Building without kerning inserts nothing; in both cases the caller's slice and nodes are left untouched, and later changes to that slice do not affect the list.",
 ["inputs"],"every sequence of nodes of all kinds, every font kerning table",
 "Kerning is only observed through the total width of a few fixed strings with one font.",
 ["tex/box.go"],
 [("kern insertion","tex/box.go: HList.kern"),("amount","tex/box.go: Char.Kerning, Accent.Kerning"),("defensive copy","tex/box.go: ListOf")],
 ["Nodes() of the list","the slice passed in"])

p("C11","Shrinking and growing scale a whole box tree uniformly and invertibly",
 "Shrinking a tree multiplies every dimension in it by the same factor of seven tenths (box, character, rule, glue and kern sizes, list shifts and glue settings, and the font size characters are drawn with), and growing divides by the same factor, at every depth of nesting; so growing after shrinking restores every dimension, k steps compose to the k-th power, and infinite (running) dimensions stay infinite. Nothing else changes: order of content, natural glue and baseline alignment are kept, so a scaled tree is drawn as a scaled copy (to within the rounding of glue).",
 ["inputs","histories"],"every tree of every node kind, every sequence of shrink and grow steps",
 "Tests never call shrink or grow except indirectly through one level of fractions, and only compare total dimensions.",
 ["tex/box.go"],
 [("per-node Shrink/Grow","tex/box.go: Shrink and Grow methods"),("common factor","tex/box.go: shrinkFactor, growFactor")],
 ["Width/Height/Depth of every node","drawing calls of a scaled tree"])

p("C12","Output draws each glyph and rule exactly once, where the boxes put it",
 "Outputting a box tree rooted in a horizontal list draws every character and every visible rule exactly once, in tree order, and nothing else. A glyph is drawn at the left edge of its slot on the baseline of its list, where slots follow each other without gap or overlap along the list, lists nest relative to the enclosing baseline or edge plus their own shift, stacked boxes advance by their full height and depth, and output of a nested list never disturbs the position of what follows it; a rule is drawn over exactly its own slot, running dimensions extending to the enclosing box.",
 ["inputs"],"every nesting of horizontal and vertical lists with characters, accents, kerns, glue, rules, empty lists and shifts, at any output offset",
 "The tests only compare the final internal cursor of five trees; not a single drawing call is checked, and image tests cover four formulas.",
 ["tex/box.go"],
 [("mutually recursive output","tex/box.go: Ship.hlistOut, Ship.vlistOut"),("cursor save and restore","tex/box.go: Ship.cur")],
 ["RenderGlyph and RenderRectFilled calls received by the backend"],
 [("cur","current output point and nesting","tex/box.go: Ship")])

p("C13","Output is repeatable and moves rigidly with its offset",
 "Outputting the same tree again, with the same or another output object, produces the same drawing; changing the requested offset moves every glyph and rule by exactly that amount and changes nothing else. What an output object was used for before, at whatever offset, never influences the next output.",
 ["inputs","histories"],"every tree, every sequence of outputs at different offsets with fresh or reused output objects",
 "Each test outputs one tree once, at the origin.",
 ["tex/box.go"],
 [("cursor reset","tex/box.go: Ship.Call"),("offset added at draw time only","tex/box.go: Ship.off")],
 ["RenderGlyph and RenderRectFilled calls received by the backend"])

p("C14","Every symbol of an expression is drawn exactly once, in reading order",
 "Typesetting an accepted expression and outputting it draws exactly one glyph for each letter, digit and symbol of the expression, for each letter of a function name and for each symbol macro, in reading order (numerator before denominator, root before radical sign before radicand), plus only the radical signs, fraction and radical and over lines, and binomial parentheses its constructs call for. Nothing is dropped, repeated or invented however constructs nest: in groups, function arguments, numerators, denominators, roots and overlined text.",
 ["inputs"],"every accepted expression over the supported constructs, at any nesting depth, in text and in formulas",
 "The layout tests compare three total dimensions of about thirty expressions, and image tests four formulas; content inside groups or function arguments could vanish unnoticed.",
 ["mtex/parser.go","mtex/macros.go","tex/box.go"],
 [("visitor collecting boxes","mtex/parser.go: visitor.Visit, handleNode"),("construct handlers","mtex/parser.go: handle* functions")],
 ["RenderGlyph calls for mtex.Parse(...) output with tex.Ship"])

p("C15","Fractions, binomials, radicals and overlines are laid out by their rules",
 "In a fraction the numerator and the denominator are centered (to within the rounding of glue) in a common width, that of the wider one, over and under a bar of that width which sits at the height of the middle of an equal sign and clears both, and both are one size smaller unless display style is requested; a binomial is laid out like a fraction without bar between parentheses that span it. A radical sign spans its radicand, an over line covers exactly the width it is over and clears it, an optional root is two sizes smaller and raised above the tick; and each construct reports dimensions from which its surroundings are placed without overlap, whatever the nesting, size and resolution.",
 ["inputs","configurations"],"every nesting of constructs, every content, font metrics, font size and resolution",
 "Tests compare the three total dimensions of eight such expressions, at one size, one resolution and with one font.",
 ["mtex/parser.go","tex/box.go"],
 [("genfrac","mtex/parser.go: genfrac"),("radical","mtex/parser.go: handleSqrt"),("overline","mtex/parser.go: handleOverline"),("delimiters","mtex/parser.go: autoSizedDelimiter; tex/box.go: AutoHeightChar")],
 ["drawing calls and dimensions for mtex.Parse output"])

p("C16","Operators, punctuation and explicit spaces get exactly their spacing",
 "In a formula, every relation, arrow and binary operator is set with a fifth of an em on both sides, except a binary operator that opens the whole expression or directly follows an opening brace or bracket (blanks aside), which gets none; a period in a formula or number gets a fifth of an em after it unless it stands between two digits; every spacing command adds its own defined amount, and a custom space the amount requested. All amounts are proportional to the font size in force, no other symbol adds space, and plain spaces in a formula add none.",
 ["inputs"],"every accepted expression: every operator and spacing command in every context and nesting",
 "Tests use three relations, one custom space and one spacing command in eight expressions and only look at total widths.",
 ["mtex/parser.go","mtex/symbols/symbols.go","mtex/symbols/symbols_gen.go"],
 [("symbol handler","mtex/parser.go: handleSymbol"),("space table","mtex/parser.go: spaceWidth, makeSpace")],
 ["glyph positions and list widths for mtex.Parse output"])

p("C17","Letters are italic exactly inside formulas, upright in text and functions",
 "Every glyph drawn inside a formula is requested in the math italic style and every glyph outside in the upright text style, the style in force before a formula being restored after it closes, at any nesting; function names are upright without affecting what surrounds or follows them. The size and family requested are those of the caller scaled only by the fractions, roots and delimiters around the glyph, and a minus sign is requested in math form exactly inside formulas.",
 ["inputs"],"every accepted expression mixing text, formulas, functions and constructs in any nesting and order",
 "No test looks at the font requested for a glyph; total widths of two mixed strings are compared.",
 ["mtex/parser.go","tex/box.go"],
 [("style saved and restored around formulas","mtex/parser.go: visitor.Visit"),("state passed by value","mtex/parser.go: handleFunction; tex/state.go")],
 ["font and mode arguments of Metrics and RenderGlyph calls"])

p("C18","Rendering hands the renderer the whole drawing with the right page size",
 "Rendering an expression calls the renderer exactly once, with the complete drawing, a width equal to that of the typeset expression in inches, a height equal to its height plus its positive depth rounded up to whole points, in inches, and the requested resolution unchanged; the drawing itself does not depend on the resolution. An invalid expression gives an error without calling the renderer, an error of the renderer is returned to the caller, and omitting the fonts is the same as passing the built-in ones.",
 ["inputs","fault_sequences"],"every expression, font set, font size, resolution and renderer behaviour, including renderers that fail",
 "The one rendering test checks that a few expressions do not fail with one renderer; sizes, resolutions and failures are not compared.",
 ["mtex/render.go","drawtex/canvas.go"],
 [("pipeline","mtex/render.go: Render"),("operation log","drawtex/canvas.go: Canvas")],
 ["arguments of Renderer.Render, returned error"])

p("C19","Remembered glyph information never changes what a font backend answers",
 "A font backend that has answered other queries before, in any order and of any kind, gives the same metrics, kerning and drawn glyph for a symbol, font, size, resolution and mode as a new one. Two backends over the same fonts never influence each other.",
 ["histories"],"every sequence of metric, kerning and drawing queries over any symbols, fonts, sizes, resolutions and modes",
 "Each backend test uses a fresh backend or asks one query per key, so a remembered answer is never compared to a fresh one.",
 ["font/ttf/ttf.go"],
 [("memo table and its key","font/ttf/ttf.go: getInfo, ttfKey")],
 ["Metrics, Kern, RenderGlyph results of a used and of a new backend"],
 [("glyphs","answers remembered per key","font/ttf/ttf.go: Backend")])

p("C20","A font backend uses the requested font and scales with the font size",
 "For every symbol the glyph comes from the font of the requested style (letters of an italic request from the italic font, everything else from the upright one), is the glyph of the code point the symbol stands for, and is the same one whether measured, kerned or drawn; it is drawn at the requested place and size. A glyph is reported as slanted exactly when it comes from the italic font or is an integral sign. All metrics and kerning, the x-height and the line thickness are proportional to the font size; the x-height and the line thickness are also proportional to the resolution, metrics and kerning do not depend on it. Extents, width, height and height above the baseline are consistent with each other.",
 ["inputs","configurations"],"every symbol, style, size and font set",
 "Metrics of seven letters at one size are compared to recorded values, for upright text with two font sets.",
 ["font/ttf/ttf.go","internal/tex2unicode/utf8.go","drawtex/canvas.go"],
 [("font and rune selection","font/ttf/ttf.go: getGlyph, getFont"),("scaling","font/ttf/ttf.go: getInfo, Kern, XHeight, UnderlineThickness")],
 ["Metrics, Kern, XHeight, UnderlineThickness; GlyphOp in the canvas"])

p("C21","Symbol names resolve to their own code point, in every form and mode",
 "Every known symbol name, with or without its backslash (single characters only with it), in text or in formulas, resolves to one fixed code point, that of the symbol it names; any single character resolves to itself, except that a hyphen is a minus sign in formulas; anything else is refused. The list of known names has no duplicates, agrees with the membership test, and every listed name made of letters, or of a single character, can be used as a macro.",
 ["inputs"],"every symbol name, every single valid character of any script, every other string, both modes",
 "The tests resolve 43 of the 570 names and ask membership for two strings.",
 ["internal/tex2unicode/utf8.go","macros.go"],
 [("table lookup","internal/tex2unicode/utf8.go: Index, HasSymbol, Symbols, tex2uni")],
 ["returned rune, membership, list of names, latex.ParseExpr of each macro"])

p("C22","Images have the requested size and are painted exactly where asked",
 "Writing a drawing as an image produces a PNG whose pixel dimensions are the requested size times the resolution, rounded up, on a transparent background, in which every rectangle is painted black over exactly its scaled extent and every glyph is drawn at its scaled position and size, in drawing order; painting is additive, so a pixel outside all scaled extents stays blank and one fully inside a rectangle is opaque black. The result depends on nothing but the drawing, size and resolution, and a failing writer is reported.",
 ["inputs","fault_sequences"],"every drawing (any rectangles and glyphs), size, resolution and destination",
 "Four formulas are compared to reference images at one resolution.",
 ["drawtex/drawimg/drawimg.go","drawtex/canvas.go"],
 [("raster loop","drawtex/drawimg/drawimg.go: Render, drawRect, drawGlyph")],
 ["decoded PNG"])

p("C23","Concurrent use gives the results of sequential use",
 "Any number of goroutines may parse, typeset, render and obtain font sets at the same time: each obtains exactly the result it would obtain alone, without data races. Each font set is loaded once, every caller of every goroutine receives the same fully loaded fonts, and using one font set never affects another.",
 ["schedules","histories"],"every interleaving of parse, typeset, render and font-loading calls by any number of goroutines, from the very first use on",
 "No test starts a goroutine, and tests are not run with the race detector.",
 ["font/lm/lm.go","font/liberation/liberation.go","font/ttf/ttf.go","mtex/parser.go","mtex/macros.go","parser.go","mtex/render.go"],
 [("one-time initialisation","font/lm/lm.go and font/liberation/liberation.go: once"),("no shared mutable state","mtex/parser.go: newParser; font/ttf/ttf.go: NewFrom; parser.go: newParser")],
 ["results per goroutine, pointer identity of font sets, race detector reports"],
 [("fnts","font set shared by all callers","font/lm/lm.go, font/liberation/liberation.go")])

p("C24","Symbol classes behave as sets and spaced symbols are their exact union",
 "A symbol set contains exactly the strings it was built from; its listing is sorted, complete and without duplicates; the union of any number of sets contains exactly what some of them contains, and later changes to an input or to the result never affect the other. A symbol counts as spaced exactly when it is a binary operator, a relation or an arrow, and each symbol belongs to the classes its meaning calls for.",
 ["inputs","histories"],"every family of sets, every string, every sequence of set operations",
 "One test asks for six symbols whether they are spaced.",
 ["mtex/symbols/set.go","mtex/symbols/symbols.go","mtex/symbols/symbols_gen.go"],
 [("set operations","mtex/symbols/set.go"),("union","mtex/symbols/symbols.go: SpacedSymbols, IsSpaced")],
 ["Has, Keys, UnionOf, IsSpaced"])

p("C25","The command-line tool writes the picture it was asked for or fails visibly",
 "Given one expression, the command writes to the requested file a PNG of that expression at the requested font size and resolution, identical to what the library produces for the same request, and exits with status zero. Without an expression, with an invalid one, or when the file cannot be written, it exits with a non-zero status and a message.",
 ["inputs","configurations","fault_sequences"],"every expression and every combination of output, size and resolution options",
 "The command has no tests.",
 ["cmd/mtex-render/main.go","cmd/mtex-render/fonts.go"],
 [("option handling and exit status","cmd/mtex-render/main.go: main")],
 ["exit status, output file, standard error"])

p("C26","The window shows the picture of the expression submitted last",
 "A window of the graphical mode first shows the picture of its default expression; within two frames after the Render button was pressed it shows the picture of what the editor holds, the same the library draws for that expression at 16 points and 256 dots per inch with the Liberation fonts. Nothing else changes the picture: neither editing the text nor clicks elsewhere, resizing, further frames or other windows. An expression that cannot be rendered leaves the picture in place, and the window goes on working.",
 ["histories","inputs"],"every history of edits, presses, clicks, resizes and frames of any number of windows, with every text",
 "The graphical mode has no tests.",
 ["cmd/mtex-render/gio.go","cmd/mtex-render/fonts.go"],
 [("submission and layout","cmd/mtex-render/gio.go: UI.Layout"),("the picture","cmd/mtex-render/gio.go: imgRender")],
 ["UI.Image after every frame"])

p("C27","Writing a PDF makes one page of the requested size or reports the failure",
 "Writing a drawing as a PDF replaces the named file by one well-formed document with exactly one page of the requested width and height in points (to within a hundredth), whatever the drawing, the proportions of the page, and whatever was written before or stood in that file. It reports an error exactly when the file cannot be written, and touches neither the drawing nor any other file.",
 ["inputs","histories","fault_sequences"],"every drawing and page size, every sequence of writes to any files, writable or not",
 "The package has no tests.",
 ["drawtex/drawpdf/drawpdf.go"],
 [("the page and the file","drawtex/drawpdf/drawpdf.go: Write")],
 ["the written file, the returned error, the drawing afterwards"])

p("C28","The window obeys its keys and its end",
 "A window of the graphical mode draws exactly one frame for each one the system asks for; Ctrl with Return or Enter pressed submits what the editor holds as the Render button does, F11 makes the next frame be saved as the picture of the window in ooo.png once, and both ask for that frame; other keys, keys without Ctrl and releases of keys do neither. Pressing Escape ends the window without an error, closing it ends it with the error it was closed with, nothing else ends it, and a screenshot that cannot be written does no harm. Without a screen the command fails with a message and leaves no file.",
 ["histories","inputs","fault_sequences"],"every history of keys, edits, button presses, frames and closings, with every text, whether or not the screenshot can be written",
 "The graphical mode has no tests.",
 ["cmd/mtex-render/gio.go","cmd/mtex-render/main.go"],
 [("the event loop","cmd/mtex-render/gio.go: UI.Run"),("screenshots","cmd/mtex-render/gio.go: UI.screenshot"),("start and exit status","cmd/mtex-render/gio.go: runGio")],
 ["frames answered, frames asked for, UI.Image, ooo.png, the result of UI.Run; exit status and output of the command"])

p("C29","The vector drawing in the window shows the submitted expression",
 "Below the picture the window draws the expression submitted last a second time, as text and rectangles of the toolkit: up to a shift of the whole, each glyph and rule stands where it does in the picture the library makes of that expression at 16 points and 256 dots per inch with the Liberation fonts, to within two pixels, in the same size, shape (upright or slanted) and blackness. It does so whatever was submitted before, is being edited, or is shown by other windows, and at every size and resolution of the window that has room for it.",
 ["histories","inputs"],"every expression with a picture, every history of submissions, edits and frames of any number of windows",
 "The graphical mode has no tests.",
 ["cmd/mtex-render/gio.go","cmd/mtex-render/fonts.go"],
 [("the vector drawing","cmd/mtex-render/gio.go: gioRenderer.drawGlyph, drawRect, gioRender"),("the fonts of the toolkit","cmd/mtex-render/fonts.go: liberationCollection")],
 ["what the toolkit's headless renderer paints of a frame"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
import re
for d in P:
    n=len(re.findall(r'[.!?](?:\s|$)',d["statement"]))
    if n>3: print(d["id"],n)
print(len(P))
