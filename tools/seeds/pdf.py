F='drawtex/drawpdf/drawpdf.go'
PRE='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawpdf"
)

func ok(c bool, what ...interface{}) {
	if !c {
		fmt.Println(what...)
		os.Exit(1)
	}
}

func read(f string) string {
	b, _ := os.ReadFile(f)
	return string(b)
}

func box(f string, w, h float64) bool {
	b := read(f)
	return strings.Count(b, "/Type /Page\\n") == 1 && strings.Count(b, "%PDF") == 1 && strings.Contains(b, fmt.Sprintf("/MediaBox [0 0 %.2f %.2f]", w, h))
}

func main() {
	d := os.Getenv("DEMO_TMP")
	c := drawtex.New()
	c.RenderRectFilled(1, 2, 3, 4)
	f := d + "/x.pdf"
	_, _, _ = c, f, read
'''
def S(id,needs,breaks,edits,body): return dict(id=id,property='C27',needs=needs,breaks=breaks,edits=[(F,a,b) for a,b in edits],demo=PRE+body+'\n}\n')
NEW='''	doc := pdf.NewCustom(&pdf.InitType{
		UnitStr: "pt",
		Size:    pdf.SizeType{Wd: w, Ht: h},
	})
'''
SEEDS=[
S('c27-landscape','a page that is wider than high','wide pages come out high',
 [(NEW,'''	orientation := "P"
	if w > h {
		orientation = "L"
	}
	doc := pdf.NewCustom(&pdf.InitType{
		OrientationStr: orientation,
		UnitStr:        "pt",
		Size:           pdf.SizeType{Wd: w, Ht: h},
	})
''')],
 '	ok(drawpdf.Write(f, 100, 200, c) == nil && box(f, 100, 200), "high page")\n	ok(drawpdf.Write(f, 200, 100, c) == nil && box(f, 200, 100), "wide page")'),
S('c27-in-place','a shorter document over a longer file','the rest of the old file stays behind the new document',
 [('	"log"\n','	"log"\n	"os"\n'),('	return doc.OutputFileAndClose(fname)','''	f, err := os.OpenFile(fname, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	return doc.OutputAndClose(f)''')],
 '	os.WriteFile(f, make([]byte, 100000), 0644)\n	ok(drawpdf.Write(f, 100, 200, c) == nil && len(read(f)) < 50000, "old content")'),
S('c27-full-disk','a file without room','a document that does not fit on the disk counts as written',
 [('	"log"\n','	"bufio"\n	"log"\n	"os"\n'),('	return doc.OutputFileAndClose(fname)','''	f, err := os.Create(fname)
	if err != nil {
		return err
	}
	defer f.Close()
	out := bufio.NewWriterSize(f, 1<<20)
	defer out.Flush()
	return doc.Output(out)''')],
 '	os.Symlink("/dev/full", d+"/full")\n	ok(drawpdf.Write(d+"/full", 100, 200, c) != nil, "no error")'),
S('c27-page-breaks','a drawing with many marks','a new page begins every 50 marks',
 [('	for _, op := range c.Ops() {','	for i, op := range c.Ops() {\n		if i > 0 && i%50 == 0 {\n			doc.AddPage()\n		}')],
 '	for i := 0; i < 60; i++ { c.RenderRectFilled(1, 2, 3, 4) }\n	ok(drawpdf.Write(f, 100, 200, c) == nil && box(f, 100, 200), "pages")'),
S('c27-nothing-to-draw','an empty drawing','an empty drawing leaves the file alone',
 [('	doc := pdf','	if len(c.Ops()) == 0 {\n		return nil\n	}\n	doc := pdf')],
 '	ok(drawpdf.Write(f, 100, 200, drawtex.New()) == nil && box(f, 100, 200), "no page")'),
S('c27-whole-points','a page size that is no whole number of points','page sizes are rounded to whole points',
 [('	"log"\n','	"log"\n	"math"\n'),('pdf.SizeType{Wd: w, Ht: h}','pdf.SizeType{Wd: math.Ceil(w), Ht: math.Ceil(h)}')],
 '	ok(drawpdf.Write(f, 100.25, 200.5, c) == nil && box(f, 100.25, 200.5), "size")'),
S('c27-sorted-ops','a drawing with rectangles before glyphs','writing sorts the marks of the drawing itself',
 [('	"log"\n','	"log"\n	"sort"\n'),('	for _, op := range c.Ops() {','''	ops := c.Ops()
	sort.SliceStable(ops, func(i, j int) bool {
		_, gi := ops[i].(drawtex.GlyphOp)
		_, gj := ops[j].(drawtex.GlyphOp)
		return gi && !gj
	})
	for _, op := range ops {''')],
 '	c.RenderGlyph(1, 2, drawtex.Glyph{Symbol: "x"})\n	ok(drawpdf.Write(f, 100, 200, c) == nil, "error")\n	_, rect := c.Ops()[0].(drawtex.RectOp)\n	ok(rect, "drawing changed")'),
]
