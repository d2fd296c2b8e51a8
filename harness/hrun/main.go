// hrun replays recorded inputs on the natively compiled code.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"

	"verif/harness/h"
	"verif/harness/sym"
)

type Case struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Values  []sym.Val      `json:"values"`
	Repeat  int            `json:"repeat"`
}

type Result struct {
	Kind  string    `json:"kind"` // ok assert panic assume diverged
	Msg   string    `json:"msg"`
	Obs   []sym.Obs `json:"obs"`
	Trc   string    `json:"trace,omitempty"`
	Alloc uint64    `json:"alloc"`
}

func run(c Case) (r Result) {
	f := h.All[c.Harness]
	if f == nil {
		return Result{Kind: "missing", Msg: c.Harness}
	}
	sym.Start(c.Values, c.Params)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	defer func() {
		runtime.ReadMemStats(&m1)
		r.Alloc = m1.TotalAlloc - m0.TotalAlloc
	}()
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(sym.Stop); ok {
				r = Result{Kind: s.Kind, Msg: s.Msg, Obs: sym.Observed()}
				return
			}
			r = Result{Kind: "panic", Msg: fmt.Sprint(e), Obs: sym.Observed(), Trc: string(debug.Stack())}
		}
	}()
	f()
	return Result{Kind: "ok", Obs: sym.Observed()}
}

func main() {
	debug.SetMaxStack(64 << 20)
	var lim syscall.Rlimit
	lim.Cur, lim.Max = 6<<30, 6<<30
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: hrun CASES.json")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var cs []Case
	if err := json.Unmarshal(b, &cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	// the code under test may print; results go to descriptor 3 if present
	out := os.NewFile(3, "results")
	if _, err := out.Stat(); err != nil {
		out = os.Stdout
	}
	enc := json.NewEncoder(out)
	for _, c := range cs {
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		var r Result
		for i := 0; i < n; i++ {
			r = run(c)
			if r.Kind == "assert" || r.Kind == "panic" {
				break
			}
		}
		enc.Encode(r)
	}
}
