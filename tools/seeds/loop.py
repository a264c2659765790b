exec(open('/verif/tools/seeds/gui.py').read().split('\nSEEDS')[0])
LPRE='''package main

import (
	"errors"
	"fmt"
	"image"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"gioui.org/app"
	"gioui.org/io/event"
	"gioui.org/io/key"
	"gioui.org/io/router"
	"gioui.org/io/system"
	"gioui.org/op"
	"gioui.org/unit"
)

// A window made by hand: its channels belong to the demonstration.
type zloop struct {
	ui      *UI
	out     chan event.Event
	redraws chan struct{}
	done    chan error
	r       router.Router
	frames  int
	open    bool
	err     error
}

func zfield(w *app.Window, name string, n int) interface{} {
	f := reflect.ValueOf(w).Elem().FieldByName(name)
	f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	f.Set(reflect.MakeChan(f.Type(), n))
	return f.Interface()
}

func zopen() *zloop {
	w := new(app.Window)
	z := &zloop{ui: NewUI(), done: make(chan error, 1), open: true}
	z.out = zfield(w, "out", 0).(chan event.Event)
	z.redraws = zfield(w, "invalidates", 1).(chan struct{})
	zfield(w, "driverFuncs", 1)
	zfield(w, "wakeups", 1)
	zfield(w, "dead", 0)
	go func() { z.done <- z.ui.Run(w) }()
	return z
}

func (z *zloop) send(e event.Event) {
	for _, e := range []event.Event{e, system.StageEvent{Stage: system.StageRunning}} {
		if !z.open {
			return
		}
		select {
		case z.out <- e:
		case z.err = <-z.done:
			z.open = false
		case <-time.After(30 * time.Second):
			fmt.Println("the window hangs")
			os.Exit(1)
		}
	}
}

func (z *zloop) frame() {
	z.send(system.FrameEvent{Now: time.Now(), Metric: unit.Metric{PxPerDp: 1, PxPerSp: 1}, Size: image.Pt(800, 900), Queue: &z.r,
		Frame: func(o *op.Ops) { z.frames++; z.r.Frame(o) }})
}

// key tells whether a frame is asked for.
func (z *zloop) key(name string, mods key.Modifiers, st key.State) bool {
	z.send(key.Event{Name: name, Modifiers: mods, State: st})
	select {
	case <-z.redraws:
		return true
	default:
		return false
	}
}

func (z *zloop) pic() string {
	b := z.ui.Image.Bounds()
	s := fmt.Sprint(b)
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			_, _, _, a := z.ui.Image.At(x, y).RGBA()
			r, _, _, _ := z.ui.Image.At(x, y).RGBA()
			s += string(rune(33 + a>>12 + r>>12))
		}
	}
	return s
}

func shots() bool {
	_, err := os.Stat("ooo.png")
	os.Remove("ooo.png")
	return err == nil
}

func ok(b bool, a ...interface{}) {
	if !b {
		fmt.Println(a...)
		os.Exit(1)
	}
}

var (
	_ = errors.New
	_ = strings.Repeat
	_ = exec.Command
	_ = app.Main
)

func init() {
	if os.Getenv("ZZDEMO") == "" {
		return
	}
	os.Chdir(os.Getenv("DEMO_TMP"))
	if os.Getenv("ZZSUB") == "" {
		// (the toolkit wants this variable before it starts)
		c := exec.Command("/proc/self/exe")
		c.Env = append(os.Environ(), "EGL_PLATFORM=surfaceless", "ZZSUB=1")
		c.Stdout = os.Stdout
		if c.Run() != nil {
			os.Exit(1)
		}
		os.Exit(0)
	}
	z := zopen()
	z.frame()
	z.ui.Editor.SetText("$x$")
'''
def L(id,needs,breaks,edits,body): return dict(id=id,property='C28',needs=needs,breaks=breaks,edits=[(F,a,b) for a,b in edits],demo=LPRE+body+END,gui=True)
PRESS='"⏎", key.ModCtrl, key.Press'
SEEDS=[
L('c28-release','a change of the text while Ctrl+Return is held down','the release of the key submits once more',
 [('e.Modifiers.Contain(key.ModCtrl) && e.State == key.Press','e.Modifiers.Contain(key.ModCtrl)')],
 '	z.key(key.NameReturn, key.ModCtrl, key.Press); z.frame()\n	p := z.pic()\n	z.ui.Editor.SetText("$yyy$")\n	z.key(key.NameReturn, key.ModCtrl, key.Release); z.frame()\n	ok(z.pic() == p, "submitted by a release")'),
L('c28-keypad','Ctrl with the Enter key of the keypad','only Return submits',
 [('			case key.NameEnter, key.NameReturn:','			case key.NameReturn:')],
 '	p := z.pic()\n	z.key(key.NameEnter, key.ModCtrl, key.Press); z.frame()\n	ok(z.pic() != p, "not submitted")'),
L('c28-shot-toggle','F11 pressed twice between two frames','the second press takes the first back',
 [('					ui.screen = true','					ui.screen = !ui.screen')],
 '	z.key("F11", 0, key.Press); z.key("F11", 0, key.Press); z.frame()\n	ok(shots(), "no screenshot")'),
L('c28-shot-early','a screenshot of a frame that differs from the one before','the screenshot shows the frame before',
 [('			gtx := layout.NewContext(&ops, e)\n			ui.Layout(gtx)\n			e.Frame(gtx.Ops)\n			if ui.screen {\n				ui.screen = false\n				ui.screenshot(gtx.Ops)\n			}','			if ui.screen {\n				ui.screen = false\n				ui.screenshot(&ops)\n			}\n			gtx := layout.NewContext(&ops, e)\n			ui.Layout(gtx)\n			e.Frame(gtx.Ops)')],
 '''	z.frame()
	z.key("F11", 0, key.Press); z.frame()
	a, _ := os.ReadFile("ooo.png")
	z.ui.Editor.SetText("many more words in the editor than before")
	z.key("F11", 0, key.Press); z.frame()
	b, _ := os.ReadFile("ooo.png")
	ok(len(a) > 0 && len(b) > 0 && string(a) != string(b), "the screenshot is old")'''),
L('c28-shot-owed','a screenshot that cannot be written, then a frame after it can','a failed screenshot is tried again by later frames',
 [('				ui.screen = false\n				ui.screenshot(gtx.Ops)','				ui.screenshot(gtx.Ops)'),
  ('	defer f.Close()\n\n	_ = png','	defer f.Close()\n	ui.screen = false\n\n	_ = png')],
 '	os.Mkdir("ooo.png", 0o777)\n	z.key("F11", 0, key.Press); z.frame()\n	os.Remove("ooo.png")\n	z.frame()\n	ok(!shots(), "a screenshot nobody asked for")'),
L('c28-shot-fatal','a screenshot that cannot be written','the window is closed when a screenshot fails',
 [('	f, err := os.Create("ooo.png")\n	if err != nil {\n		return\n	}','	f, err := os.Create("ooo.png")\n	if err != nil {\n		panic(err)\n	}')],
 '	os.Mkdir("ooo.png", 0o777)\n	z.key("F11", 0, key.Press); z.frame()\n	z.frame()\n	ok(z.open, "closed")'),
L('c28-shot-twice','a frame of which a screenshot is taken','the frame is drawn twice when a screenshot is taken',
 [('				ui.screenshot(gtx.Ops)\n','				ui.screenshot(gtx.Ops)\n				e.Frame(gtx.Ops)\n')],
 '	n := z.frames\n	z.key("F11", 0, key.Press); z.frame()\n	ok(z.frames == n+1, z.frames-n, "frames drawn")'),
L('c28-same-text','Ctrl+Return with the text that is shown already','no frame is asked for when the submission is the old one',
 [('					ui.expr = ui.Editor.Text()\n					win.Invalidate()','					if s := ui.Editor.Text(); s != ui.expr {\n						ui.expr = s\n						win.Invalidate()\n					}')],
 '	ok(z.key(key.NameReturn, key.ModCtrl, key.Press), "no frame for the first")\n	z.frame()\n	ok(z.key(key.NameReturn, key.ModCtrl, key.Press), "no frame for the second")'),
L('c28-close-error','a window closed because of an error','the error is lost',
 [('			return e.Err\n','			if e.Err != nil && ui.expr == "" {\n				return e.Err\n			}\n			return nil\n')],
 '	z.send(system.DestroyEvent{Err: errors.New("lost")})\n	ok(!z.open && z.err != nil, z.open, z.err)'),
L('c28-escape-busy','Escape while a screenshot is asked for','Escape only takes the screenshot back',
 [('			case key.NameEscape:\n				return nil','			case key.NameEscape:\n				if ui.screen {\n					ui.screen = false\n					break\n				}\n				return nil')],
 '	z.key("F11", 0, key.Press)\n	z.key(key.NameEscape, 0, key.Press)\n	ok(!z.open, "still open")'),
L('c28-key-after-press','the button pressed and Ctrl+Return typed before the next frame, with an edit between','a key is ignored while a press waits',
 [('				if e.Modifiers.Contain(key.ModCtrl) && e.State == key.Press {','				if e.Modifiers.Contain(key.ModCtrl) && e.State == key.Press && !ui.screen {')],
 '	p := z.pic()\n	z.key("F11", 0, key.Press)\n	z.key(key.NameReturn, key.ModCtrl, key.Press); z.frame()\n	ok(z.pic() != p, "not submitted")'),
L('c28-no-screen','no screen to show the window on','the command succeeds without having shown anything',
 [('		if err != nil {\n			log.Fatal(err)\n		}\n		os.Exit(0)','		if err != nil {\n			log.Print(err)\n		}\n		os.Exit(0)')],
 '''	_ = z
	c := exec.Command("/proc/self/exe", "-gui")
	c.Env = []string{"HOME=/tmp"}
	ok(c.Run() != nil, "exit status 0")'''),
]
for s in SEEDS:
    if s['id']=='c28-key-after-press':
        s.update(needs='Ctrl+Return after F11 and before the next frame', breaks='while a screenshot is asked for, keys do not submit')
        s['id']='c28-busy-submit'
