// Native replay: runs harnesses of the real build with concrete inputs.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime/debug"
	"strconv"

	"github.com/Foxcapades/lib-go-raml/v0/zzverif/h"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
)

type kase struct {
	Harness string       `json:"harness"`
	Inputs  []sym.Assign `json:"inputs"`
	Tier    int          `json:"tier"`
	Repeat  int          `json:"repeat"`
}

type result struct {
	I      int    `json:"i"`
	Result string `json:"result"` // ok fail panic skip nofn
	Msg    string `json:"msg,omitempty"`
	Class  string `json:"class,omitempty"`
	Stack  string `json:"stack,omitempty"`
}

func one(i int, c kase) (r result) {
	r = result{I: i, Result: "ok"}
	f := h.Registry[c.Harness]
	if f == nil {
		r.Result = "nofn"
		return
	}
	sym.Load(c.Inputs, c.Tier)
	h.Reset()
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case sym.Failed:
				r.Result, r.Msg, r.Class = "fail", e.Msg, e.Class
			case sym.Skip:
				r.Result, r.Msg = "skip", e.Why
			default:
				r.Result, r.Msg, r.Stack = "panic", fmt.Sprint(e), string(debug.Stack())
			}
		}
	}()
	f()
	return
}

func main() {
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	b, err := ioutil.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cs []kase
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	start, _ := strconv.Atoi(os.Args[2])
	out := os.NewFile(3, "results")
	for i := start; i < len(cs); i++ {
		fmt.Fprintf(out, "S %d\n", i)
		n := cs[i].Repeat
		if n < 1 {
			n = 1
		}
		var r result
		for k := 0; k < n; k++ {
			r = one(i, cs[i])
			if r.Result == "fail" || r.Result == "panic" {
				break
			}
		}
		j, _ := json.Marshal(r)
		fmt.Fprintf(out, "R %s\n", j)
	}
}
