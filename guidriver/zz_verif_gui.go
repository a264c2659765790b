// The window of mtex-render without a screen: this file is compiled into the
// command through an overlay and takes over when VERIF_GUI is set.  Requests
// (one JSON object per line) are histories of a window; the answers tell what
// picture the window holds after every frame.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"log"
	"os"
	"runtime/debug"
	"time"

	"gioui.org/f32"
	"gioui.org/io/key"
	"gioui.org/io/pointer"
	"gioui.org/io/router"
	"gioui.org/io/system"
	"gioui.org/layout"
	"gioui.org/op"
	"gioui.org/unit"

	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/mtex"
)

type vEvent struct {
	K    string // type, keys, click, point, away, size, frame
	T    []byte
	W, H int
	S    float32
	Win  int // which window
	// keys and the end, of a window with its event loop
	N          string
	Ctrl, Down bool
	Mods       int
	Err        string
}

type vReq struct {
	Pic    []byte
	HasPic bool
	Wins   int
	Events []vEvent
	Loop   bool   // with the event loop
	Vec    bool   // the vector drawing
	Dir    string // where it runs
}

type vObs struct {
	K   string // type, press, frame
	T   []byte
	Pic string `json:",omitempty"`
	Win int
	// with the event loop
	N, R int    // frames answered, frames asked for
	S    string // screenshot: none, shot or what is wrong
	Open bool
	Res  string
	// the vector drawing
	Marks, Pix [][3]int `json:",omitempty"`
}

type vWin struct {
	ui   *UI
	r    router.Router
	ops  op.Ops
	w, h int
	s    float32
	now  time.Time
	seen bool // drawn at this size with this text
}

func vHash(img image.Image) string {
	if img == nil {
		return "none"
	}
	b := img.Bounds()
	h := sha1.New()
	fmt.Fprint(h, b.Dx(), b.Dy())
	row := make([]byte, 0, 4*b.Dx())
	for y := b.Min.Y; y < b.Max.Y; y++ {
		row = row[:0]
		for x := b.Min.X; x < b.Max.X; x++ {
			c := color.NRGBAModel.Convert(img.At(x, y)).(color.NRGBA)
			row = append(row, c.R, c.G, c.B, c.A)
		}
		h.Write(row)
	}
	return fmt.Sprintf("%x/%dx%d", h.Sum(nil)[:8], b.Dx(), b.Dy())
}

func vNewWin() *vWin {
	return &vWin{ui: NewUI(), w: 800, h: 900, s: 1, now: time.Unix(1e9, 0)}
}

func (w *vWin) frame() string {
	w.ops.Reset()
	w.now = w.now.Add(200 * time.Millisecond)
	gtx := layout.NewContext(&w.ops, system.FrameEvent{
		Now: w.now, Metric: unit.Metric{PxPerDp: w.s, PxPerSp: w.s},
		Size: image.Pt(w.w, w.h), Queue: &w.r,
	})
	w.ui.Layout(gtx)
	w.r.Frame(&w.ops)
	w.seen = true
	return vHash(w.ui.Image)
}

func (w *vWin) point(k pointer.Type, y int) {
	ev := pointer.Event{Type: k, Source: pointer.Mouse, Position: f32.Pt(float32(w.w)/2, float32(y)), Time: time.Duration(w.now.UnixNano())}
	if k == pointer.Press {
		ev.Buttons = pointer.ButtonPrimary
	}
	w.r.Queue(ev)
}

var vButtons = map[string]int{}

// button finds where the button is in a window of that size with that text.
func (w *vWin) button() int {
	key := fmt.Sprint(w.w, w.h, w.s, w.ui.Editor.Text())
	if y, ok := vButtons[key]; ok {
		return y
	}
	p := vNewWin()
	p.w, p.h, p.s = w.w, w.h, w.s
	p.ui.Editor.SetText(w.ui.Editor.Text())
	p.frame()
	step := int(10 * w.s)
	hit := func(from, to int) bool {
		for k := from; k < to; k++ {
			p.point(pointer.Press, k*step)
			p.point(pointer.Release, k*step)
		}
		p.frame()
		for _, h := range p.ui.Button.History() {
			if h.Start.Equal(p.now) {
				return true
			}
		}
		return false
	}
	from, to := 0, w.h/step
	found := -1
	if hit(from, to) {
		for to-from > 1 {
			if m := (from + to) / 2; hit(from, m) {
				to = m
			} else {
				from = m
			}
		}
		found = from*step + step/2
	}
	vButtons[key] = found
	return found
}

func vRun(q vReq) (res map[string]interface{}) {
	var obs []vObs
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if len(st) > 1500 {
				st = st[:1500]
			}
			res = map[string]interface{}{"obs": obs, "panic": fmt.Sprint(e), "stack": st}
		}
	}()
	if q.Vec {
		return vVector(q)
	}
	if q.HasPic {
		buf := new(bytes.Buffer)
		err := mtex.Render(drawimg.NewRenderer(buf), string(q.Pic), 16, 256, liberation.Fonts())
		if err != nil {
			return map[string]interface{}{"pic": "", "err": err.Error()}
		}
		img, err := png.Decode(buf)
		if err != nil {
			return map[string]interface{}{"pic": "", "err": err.Error()}
		}
		return map[string]interface{}{"pic": vHash(img)}
	}
	if q.Loop {
		return vLoop(q)
	}
	wins := make([]*vWin, q.Wins)
	for i := range wins {
		wins[i] = vNewWin()
		obs = append(obs, vObs{K: "type", T: []byte(wins[i].ui.Editor.Text()), Win: i})
	}
	for _, e := range q.Events {
		w := wins[e.Win]
		see := func() { obs = append(obs, vObs{K: "frame", Pic: w.frame(), Win: e.Win}) }
		switch e.K {
		case "type":
			w.ui.Editor.SetText(string(e.T))
			w.seen = false
			obs = append(obs, vObs{K: "type", T: e.T, Win: e.Win})
		case "keys":
			w.ui.Editor.Focus()
			see()
			w.r.Queue(key.EditEvent{Text: string(e.T)})
			pic := w.frame()
			obs = append(obs, vObs{K: "type", T: []byte(w.ui.Editor.Text()), Win: e.Win}, vObs{K: "frame", Pic: pic, Win: e.Win})
		case "click":
			w.ui.Button.Click()
			obs = append(obs, vObs{K: "press", Win: e.Win})
		case "point":
			y := w.button()
			if y < 0 {
				return map[string]interface{}{"obs": obs, "panic": fmt.Sprintf("no button to press in a window of %d x %d", w.w, w.h)}
			}
			if !w.seen {
				see() // nobody presses what is not drawn yet
			}
			w.point(pointer.Press, y)
			w.point(pointer.Release, y)
			obs = append(obs, vObs{K: "press", Win: e.Win})
		case "away":
			if !w.seen {
				see()
			}
			y := w.button()
			for _, d := range []int{3, y - int(45*w.s), y + int(45*w.s), w.h - 3} {
				w.point(pointer.Press, d)
				w.point(pointer.Release, d)
			}
		case "size":
			w.w, w.h, w.s = e.W, e.H, e.S
			w.seen = false
		case "frame":
			see()
		}
	}
	return map[string]interface{}{"obs": obs}
}

func init() {
	if os.Getenv("VERIF_GUI") == "" {
		return
	}
	log.SetOutput(io.Discard)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var q vReq
			if e := json.Unmarshal(line, &q); e != nil {
				panic(e)
			}
			buf, _ := json.Marshal(vRun(q))
			out.Write(append(buf, '\n'))
			out.Flush()
		}
		if err != nil {
			os.Exit(0)
		}
	}
}
