// Command verifdrv runs requests of the verification harness against the
// packages of this module.  It is built from /verif/driver through an overlay.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"time"
)

type handler func(raw json.RawMessage) interface{}

var modes = map[string]handler{}

const caseTimeout = 30 * time.Second

// call runs one request; a panic becomes {"panic": ...} and a hang ends the
// process (the harness attributes it to the request).
func call(h handler, raw json.RawMessage) interface{} {
	done := make(chan interface{}, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				stack := string(debug.Stack())
				if len(stack) > 1500 {
					stack = stack[:1500]
				}
				done <- map[string]interface{}{"panic": fmt.Sprint(e), "stack": stack}
			}
		}()
		done <- h(raw)
	}()
	select {
	case v := <-done:
		return v
	case <-time.After(caseTimeout):
		fmt.Fprintln(os.Stderr, "request did not end")
		os.Exit(3)
		return nil
	}
}

func main() {
	log.SetOutput(io.Discard)
	h, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			v := call(h, json.RawMessage(line))
			buf, e := json.Marshal(v)
			if e != nil {
				buf, _ = json.Marshal(map[string]interface{}{"panic": "cannot encode result: " + e.Error()})
			}
			out.Write(buf)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
