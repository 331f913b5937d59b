// Package replay runs concrete cases of the harnesses natively.
package replay

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"verif/sym"
)

type caseIn struct {
	ID int               `json:"id"`
	H  string            `json:"h"`
	In map[string]uint64 `json:"in"`
}

type caseOut struct {
	ID     int      `json:"id"`
	Events []string `json:"events"`
	Fail   []string `json:"fail"`
	Inv    string   `json:"inv"`
	Panic  string   `json:"panic"`
	Hang   bool     `json:"hang"`
}

// Main is the body of the generated program.
// arguments: cases-file result-file known-ids tier
func Main(table map[string]func()) {
	debug.SetMaxStack(256 << 20)
	// a run-away case must not eat the machine
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 10 << 30, Max: 10 << 30})
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	known := map[string]bool{}
	for _, k := range strings.Split(os.Args[3], ",") {
		if k != "" {
			known[k] = true
		}
	}
	thorough := os.Args[4] == "thorough"
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var c caseIn
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic(err)
		}
		f := table[c.H]
		if f == nil {
			panic("no harness " + c.H)
		}
		done := make(chan caseOut, 1)
		go func() {
			o := caseOut{ID: c.ID}
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(sym.Stopped); !ok {
						o.Panic = fmt.Sprint(r)
						if len(o.Panic) > 300 {
							o.Panic = o.Panic[:300]
						}
					}
				}
				o.Events, o.Fail, o.Inv = sym.Result()
				done <- o
			}()
			sym.Start(c.In, known, thorough)
			f()
		}()
		select {
		case o := <-done:
			enc.Encode(o)
		case <-time.After(20 * time.Second):
			enc.Encode(caseOut{ID: c.ID, Hang: true})
			os.Exit(4)
		}
	}
}
