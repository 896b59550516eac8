// Package replay runs harnesses natively on recorded assignments.
package replay

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"github.com/steve-care-software/rodkina/verifh/env/core"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

type request struct {
	H      string         `json:"h"`
	In     []sym.Input    `json:"in"`
	Params map[string]int `json:"params"`
}

type response struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Reach   []string `json:"reach"`
	Obs     []string `json:"obs"`
}

// Main reads requests from stdin, one per line
func Main(hs map[string]func()) {
	debug.SetMaxStack(256 << 20)
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		var rq request
		if e := json.Unmarshal(line, &rq); e != nil {
			fmt.Fprintln(os.Stderr, "bad request:", e)
			os.Exit(2)
		}
		h, ok := hs[rq.H]
		if !ok {
			fmt.Fprintln(os.Stderr, "no harness", rq.H)
			os.Exit(2)
		}
		b, _ := json.Marshal(run(h, rq))
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
		if err != nil {
			break
		}
	}
}

func run(h func(), rq request) (res response) {
	sym.Reset(rq.In, rq.Params)
	core.Reset()
	res.Outcome = "ok"
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(sym.Stopped); ok {
				res.Outcome, res.Msg = s.Kind, s.Msg
			} else {
				res.Outcome, res.Msg = "panic", fmt.Sprint(r)
			}
		}
		res.Reach, res.Obs = sym.Reached, sym.Obs
	}()
	h()
	return
}
