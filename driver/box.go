package main

import (
	"encoding/json"
	"math"
	"strconv"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
)

func init() { modes["box"] = boxMode }

// linear font: metrics are coefficients (eighths of the font size)
type coefs struct{ A, W, H, I, X0, X1, Y0, Y1 float64 }

type boxRec struct {
	glyphs map[string]coefs
	kerns  map[string]map[string]float64
	thick  float64
	draws  [][]interface{}
}

// boxBackend is the backend of one node: what it draws is attributed to it.
type boxBackend struct {
	*boxRec
	id int
}

func (be *boxBackend) RenderGlyph(x, y float64, f font.Font, symbol string, dpi float64) {
	be.draws = append(be.draws, []interface{}{"g", symbol, f.Size, x, y, be.id, f.Name, f.Type, dpi})
}
func (be *boxBackend) RenderRectFilled(x1, y1, x2, y2 float64) {
	be.draws = append(be.draws, []interface{}{"r", "", num(x1), num(y1), num(x2), num(y2), be.id})
}
func (be *boxBackend) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	return be.kerns[s1][s2] / 8 * f1.Size
}
func (be *boxBackend) Metrics(symbol string, f font.Font, dpi float64, math bool) font.Metrics {
	g := be.glyphs[symbol]
	u := f.Size / 8
	return font.Metrics{Advance: g.A * u, Width: g.W * u, Height: g.H * u, Iceberg: g.I * u,
		XMin: g.X0 * u, XMax: g.X1 * u, YMin: g.Y0 * u, YMax: g.Y1 * u}
}
func (be *boxBackend) XHeight(f font.Font, dpi float64) float64 { return f.Size / 2 }
func (be *boxBackend) UnderlineThickness(f font.Font, dpi float64) float64 {
	return be.thick / 8 * f.Size
}

// num keeps infinities encodable.
func num(x float64) float64 {
	switch {
	case math.IsNaN(x):
		return 3e300
	case math.IsInf(x, +1):
		return 1e300
	case math.IsInf(x, -1):
		return -1e300
	}
	return x
}

type boxOp struct {
	O          string
	C          string
	Z, W, H, D float64
	FN, FD     float64
	N          int
	K          []int
	Kern, Add  bool
	Cl         bool // the list is a cluster
	Lim, X, Y  float64
	Fresh      bool
}

type boxReq struct {
	U      float64
	Glyphs map[string]coefs
	Kerns  map[string]map[string]float64
	Thick  float64
	P      []boxOp
}

const boxInf = 2000000000

type boxSight struct {
	W  float64 `json:"w"`
	H  float64 `json:"h"`
	D  float64 `json:"d"`
	K  []int   `json:"k"`
	GS int     `json:"gs"`
	GO int     `json:"go"`
	GV float64 `json:"gv"`
}

func (s boxSight) same(o boxSight) bool {
	if s.W != o.W || s.H != o.H || s.D != o.D || s.GS != o.GS || s.GO != o.GO || s.GV != o.GV || len(s.K) != len(o.K) {
		return false
	}
	for i := range s.K {
		if s.K[i] != o.K[i] {
			return false
		}
	}
	return true
}

type boxObs struct {
	Ch    [][]interface{} `json:"ch"`
	Dr    [][]interface{} `json:"dr"`
	Slice string          `json:"slice,omitempty"`
	Panic string          `json:"panic,omitempty"`
}

type boxMachine struct {
	u     float64
	rec   *boxRec
	nodes []tex.Node
	ids   map[tex.Node]int
	last  []boxSight
	ship  tex.Ship
	slice string
	res   []int // results of the operations so far
}

func (m *boxMachine) len(x float64) float64 {
	if x == boxInf {
		return math.Inf(+1)
	}
	return x / m.u
}

func (m *boxMachine) add(n tex.Node) {
	if _, dup := m.ids[n]; dup {
		return
	}
	m.nodes = append(m.nodes, n)
	m.ids[n] = len(m.nodes)
	m.last = append(m.last, boxSight{GS: -99})
}

func (m *boxMachine) ref(r int) int {
	if r > 0 {
		return m.res[r-1]
	}
	return len(m.nodes) + r
}

func (m *boxMachine) state(z float64) tex.State {
	id := len(m.nodes) + 1
	s := strconv.Itoa(id)
	return tex.NewState(&boxBackend{m.rec, id}, font.Font{Name: "n" + s, Type: "t" + s, Size: z / m.u}, float64(100+id))
}

func (m *boxMachine) sight(n tex.Node) boxSight {
	s := boxSight{W: num(n.Width()), H: num(n.Height()), D: num(n.Depth())}
	if t, ok := n.(tex.Tree); ok {
		s.K = []int{}
		for _, k := range t.Nodes() {
			s.K = append(s.K, m.ids[k])
		}
		s.GS, s.GO, s.GV = t.GlueSign(), t.GlueOrder(), num(t.GlueSet())
	}
	return s
}

// build makes a list out of a slice with spare capacity, checks that the
// slice is left alone, and then ruins it.
func (m *boxMachine) build(k []int, f func(s []tex.Node) tex.Tree) {
	const spare = 4
	buf := make([]tex.Node, len(k)+spare)
	for i, r := range k {
		buf[i] = m.nodes[m.ref(r)-1]
	}
	sentinel := tex.HBox(12345)
	for i := len(k); i < len(buf); i++ {
		buf[i] = sentinel
	}
	want := append([]tex.Node(nil), buf...)
	t := f(buf[:len(k)])
	for i := range buf {
		if buf[i] != want[i] {
			m.slice = "element " + strconv.Itoa(i+1) + " of the caller's slice was changed"
		}
	}
	junk := tex.HBox(1e6)
	for i := range buf {
		buf[i] = junk
	}
	_ = append(buf[:0], junk, junk, junk)
	for _, n := range t.Nodes() {
		m.add(n)
	}
	m.add(t)
}

// cluster: a horizontal list as the nucleus of a cluster (c), or alone.
func cluster(c bool, h *tex.HList) tex.Tree {
	if c {
		return &tex.SubSuperCluster{HList: h}
	}
	return h
}

func (m *boxMachine) do(o boxOp) {
	switch o.O {
	case "char":
		m.add(tex.NewChar(o.C, m.state(o.Z), len(m.nodes)%2 == 0))
	case "acc":
		m.add(tex.NewAccent(o.C, m.state(o.Z), len(m.nodes)%2 == 0))
	case "box":
		switch {
		case o.W == 0:
			m.add(tex.VBox(m.len(o.H), m.len(o.D)))
		case o.H == 0 && o.D == 0:
			m.add(tex.HBox(m.len(o.W)))
		default:
			panic("no such box")
		}
	case "rule":
		m.add(tex.NewRule(m.len(o.W), m.len(o.H), m.len(o.D), m.state(8)))
	case "hrule":
		w := -1.0
		if o.W >= 0 {
			w = m.len(o.W)
		}
		m.add(tex.HRule(m.state(o.Z), w))
	case "vrule":
		m.add(tex.VRule(m.state(o.Z)))
	case "kern":
		m.add(tex.NewKern(m.len(o.W)))
	case "glue":
		m.add(tex.NewGlue(o.C))
	case "hlist":
		m.build(o.K, func(s []tex.Node) tex.Tree { return cluster(o.Cl, tex.HListOf(s, o.Kern)) })
	case "vlist":
		m.build(o.K, func(s []tex.Node) tex.Tree { return tex.VListOf(s) })
	case "hcenter":
		m.build(o.K, func(s []tex.Node) tex.Tree { return cluster(o.Cl, tex.HCentered(s)) })
	case "vcenter":
		m.build(o.K, func(s []tex.Node) tex.Tree { return tex.VCentered(s) })
	case "auto":
		f := 0.0
		if o.FN != 0 {
			f = o.FN / o.FD
		}
		t := tex.AutoHeightChar(o.C, m.len(o.H), m.len(o.D), m.state(o.Z), f)
		for _, n := range t.Nodes() {
			m.add(n)
		}
		m.add(t)
	case "pack":
		switch n := m.nodes[m.ref(o.N)-1].(type) {
		case *tex.HList:
			n.HPack(m.len(o.W), o.Add)
		case *tex.SubSuperCluster:
			n.HPack(m.len(o.W), o.Add)
		case *tex.VList:
			n.VPack(m.len(o.W), o.Add, m.len(o.Lim))
		default:
			panic("no list")
		}
	case "shift":
		m.nodes[m.ref(o.N)-1].(*tex.VList).SetShift(m.len(o.W))
	case "shrink":
		m.nodes[m.ref(o.N)-1].Shrink()
	case "grow":
		m.nodes[m.ref(o.N)-1].Grow()
	case "ship":
		sh := &m.ship
		if o.Fresh {
			sh = new(tex.Ship)
		}
		sh.Call(m.len(o.X), m.len(o.Y), m.nodes[m.ref(o.N)-1].(tex.Tree))
	default:
		panic("unknown operation " + o.O)
	}
}

func (m *boxMachine) step(o boxOp) (obs boxObs) {
	m.rec.draws = [][]interface{}{}
	m.slice = ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				if err, ok := e.(error); ok {
					obs.Panic = err.Error()
				} else if s, ok := e.(string); ok {
					obs.Panic = s
				} else {
					obs.Panic = "panic"
				}
			}
		}()
		m.do(o)
	}()
	obs.Ch = [][]interface{}{}
	for i, n := range m.nodes {
		s := m.sight(n)
		if !s.same(m.last[i]) {
			m.last[i] = s
			obs.Ch = append(obs.Ch, []interface{}{i + 1, s})
		}
	}
	obs.Dr = m.rec.draws
	obs.Slice = m.slice
	return obs
}

func boxMode(raw json.RawMessage) interface{} {
	var req boxReq
	must(json.Unmarshal(raw, &req))
	m := &boxMachine{u: req.U, ids: map[tex.Node]int{},
		rec: &boxRec{glyphs: req.Glyphs, kerns: req.Kerns, thick: req.Thick}}
	var res []boxObs
	for _, o := range req.P {
		obs := m.step(o)
		res = append(res, obs)
		m.res = append(m.res, len(m.nodes))
		if obs.Panic != "" {
			break
		}
	}
	return map[string]interface{}{"obs": res}
}
