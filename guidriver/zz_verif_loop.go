// The event loop of the window, on a window made by hand: the channels of
// app.Window are those of the driver, nothing is shown anywhere.
package main

import (
	"errors"
	"fmt"
	"image"
	"image/png"
	"os"
	"reflect"
	"runtime/debug"
	"time"
	"unsafe"

	"gioui.org/app"
	"gioui.org/gpu/headless"
	"gioui.org/io/event"
	"gioui.org/io/key"
	"gioui.org/io/system"
	"gioui.org/op"
	"gioui.org/unit"
)

func vField(w *app.Window, name string) reflect.Value {
	f := reflect.ValueOf(w).Elem().FieldByName(name)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func vMake(w *app.Window, name string, n int) interface{} {
	f := vField(w, name)
	f.Set(reflect.MakeChan(f.Type(), n))
	return f.Interface()
}

// vShot is the picture of a frame, "" if there is no headless window here.
func vShot(ops *op.Ops, w, h int) (string, image.Image) {
	win, err := headless.NewWindow(w, h)
	if err != nil {
		return "", nil
	}
	defer win.Release()
	if err := win.Frame(ops); err != nil {
		return "", nil
	}
	img, err := win.Screenshot()
	if err != nil {
		return "", nil
	}
	return vHash(img), img
}

type vEnd struct {
	err   error
	panic string
}

var vKeys = map[string]string{
	"return": key.NameReturn, "enter": key.NameEnter, "shot": "F11", "escape": key.NameEscape,
	"F1": "F1", "F10": "F10", "F12": "F12", "space": key.NameSpace, "tab": key.NameTab, "R": "R", "left": key.NameLeftArrow,
}

func vLoop(q vReq) map[string]interface{} {
	if q.Dir != "" {
		if err := os.Chdir(q.Dir); err != nil {
			panic(err)
		}
		defer os.Chdir("/")
	}
	const shot = "ooo.png"
	os.Remove(shot)
	defer os.Remove(shot)
	blocked := false
	win := new(app.Window)
	out := vMake(win, "out", 0).(chan event.Event)
	redraws := vMake(win, "invalidates", 1).(chan struct{})
	vMake(win, "driverFuncs", 1)
	vMake(win, "wakeups", 1)
	dead := vMake(win, "dead", 0).(chan struct{})
	defer close(dead)

	v := vNewWin()
	done := make(chan vEnd, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				if len(st) > 1500 {
					st = st[:1500]
				}
				done <- vEnd{panic: fmt.Sprint(e, " ", st)}
			}
		}()
		done <- vEnd{err: v.ui.Run(win)}
	}()

	obs := []vObs{{K: "type", T: []byte(v.ui.Editor.Text())}}
	open, res := true, ""
	var bad string
	send := func(e event.Event) {
		if !open || bad != "" {
			return
		}
		select {
		case out <- e:
		case r := <-done:
			open = false
			switch {
			case r.panic != "":
				bad = r.panic
			case r.err != nil:
				res = r.err.Error()
			default:
				res = "ok"
			}
		case <-time.After(60 * time.Second):
			bad = "the window does not react"
		}
	}
	// when the loop takes another event, it is done with the one before
	sync := func() { send(system.StageEvent{Stage: system.StageRunning}) }
	drain := func() int {
		select {
		case <-redraws:
			return 1
		default:
			return 0
		}
	}
	for _, e := range q.Events {
		o := vObs{K: e.K}
		switch e.K {
		case "type":
			v.ui.Editor.SetText(string(e.T))
			o.T = e.T
		case "click":
			o.K = "press"
			v.ui.Button.Click()
		case "size":
			v.w, v.h, v.s = e.W, e.H, e.S
			continue
		case "place":
			if blocked = !blocked; blocked {
				if err := os.Mkdir(shot, 0o777); err != nil {
					panic(err)
				}
			} else if err := os.Remove(shot); err != nil {
				panic(err)
			}
		case "key":
			k := key.Event{Name: vKeys[e.N], Modifiers: key.Modifiers(e.Mods)}
			if e.Ctrl {
				k.Modifiers |= key.ModCtrl
			}
			if !e.Down {
				k.State = key.Release
			}
			drain()
			send(k)
			sync()
			o.R = drain()
		case "frame":
			v.now = v.now.Add(200 * time.Millisecond)
			n := 0
			var ops *op.Ops
			send(system.FrameEvent{
				Now: v.now, Metric: unit.Metric{PxPerDp: v.s, PxPerSp: v.s},
				Size: image.Pt(v.w, v.h), Queue: &v.r,
				Frame: func(o *op.Ops) { n++; ops = o; v.r.Frame(o) },
			})
			sync()
			o.N, o.Pic, o.S = n, vHash(v.ui.Image), "none"
			if st, err := os.Lstat(shot); err == nil && st.Mode().IsRegular() {
				o.S = "shot"
				f, err := os.Open(shot)
				if err != nil {
					o.S = err.Error()
					break
				}
				img, err := png.Decode(f)
				f.Close()
				os.Remove(shot)
				if err != nil {
					o.S = "the screenshot is no picture: " + err.Error()
					break
				}
				want := ""
				if ops != nil {
					want, _ = vShot(ops, v.w, v.h)
				}
				if got := vHash(img); got != want {
					o.S = fmt.Sprintf("the screenshot (%s) does not show the frame (%s)", got, want)
				}
			}
		case "destroy":
			d := system.DestroyEvent{}
			if e.Err != "ok" {
				d.Err = errors.New(e.Err)
			}
			send(d)
			sync()
		}
		o.Open, o.Res = open, res
		obs = append(obs, o)
		if bad != "" {
			return map[string]interface{}{"obs": obs, "panic": bad}
		}
		if !open {
			break
		}
	}
	if open {
		send(system.DestroyEvent{})
		sync()
	}
	can, _ := vShot(new(op.Ops), 10, 10)
	return map[string]interface{}{"obs": obs, "shots": can != ""}
}
