// Command vh drives the code under test: it reads one scenario per line (JSON) from a file, runs it through the
// public API of modsecurity-go and writes one line with the observed events per scenario.
//
//	vh MODE IN OUT SCRATCH
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/sirupsen/logrus"
)

// B is a byte string that is an array of numbers in JSON, as the specifications see it.
type B []byte

// Sizes beyond what a specification can be evaluated on: a scenario may be pumped. Then every run of two or more
// bytes pumpC that comes in is made pumpN longer, and every run of pumpN or more equal bytes that goes out is made
// as much shorter. The specification sees neither (see spec/MCPump.tla on when that is right).
var pumpC, pumpN int = -1, 0
var pumpLim bool // move the limits by pumpN

func pump(b []byte) []byte {
	if pumpN == 0 {
		return b
	}
	res := []byte{}
	for i := 0; i < len(b); {
		k := i
		for k < len(b) && b[k] == b[i] {
			k++
		}
		res = append(res, b[i:k]...)
		if int(b[i]) == pumpC && k-i >= 2 {
			res = append(res, bytes.Repeat(b[i:i+1], pumpN)...)
		}
		i = k
	}
	return res
}

func unpump(b []byte) []byte {
	if pumpN == 0 {
		return b
	}
	res := []byte{}
	for i := 0; i < len(b); {
		k := i
		for k < len(b) && b[k] == b[i] {
			k++
		}
		res = append(res, b[i:i+(k-i)%pumpN]...)
		i = k
	}
	if len(res) > 20000 {
		res = append(res[:20000], "..."...)
	}
	return res
}

func (b B) MarshalJSON() ([]byte, error) {
	b = unpump(b)
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return json.Marshal(r)
}
func (b *B) UnmarshalJSON(d []byte) error {
	var r []int
	if err := json.Unmarshal(d, &r); err != nil {
		return err
	}
	*b = make([]byte, len(r))
	for i, c := range r {
		(*b)[i] = byte(c)
	}
	*b = pump(*b)
	return nil
}

func bs(ss []string) []B {
	r := make([]B, len(ss))
	for i, s := range ss {
		r[i] = B(s)
	}
	return r
}

type E map[string]interface{}

// Rec collects the observed events of one scenario.
type Rec struct {
	Ev    []E
	limit int
	mute  bool // nothing is recorded
	muted int
}

type overflow struct{}

func (r *Rec) add(e E) {
	if r.mute {
		if r.muted++; r.muted < 20*r.limit {
			return
		}
		panic(overflow{})
	}
	if len(r.Ev) >= r.limit {
		panic(overflow{})
	}
	r.Ev = append(r.Ev, e)
}

var modes = map[string]func(raw json.RawMessage, r *Rec){}

var scratch string

func run(f func(json.RawMessage, *Rec), raw json.RawMessage, r *Rec) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(overflow); ok {
				// what it did first is enough to judge it; every event may hold all log entries so far
				if len(r.Ev) > 60 {
					r.Ev = r.Ev[:60:60]
				}
				r.Ev = append(r.Ev, E{"e": "hang"})
				return
			}
			st := string(debug.Stack())
			r.Ev = append(r.Ev, E{"e": "panic"})
			if os.Getenv("VH_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, p, st)
			}
		}
	}()
	f(raw, r)
}

func main() {
	logrus.SetOutput(ioutil.Discard)
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(3 << 30)
	mode, in, out := os.Args[1], os.Args[2], os.Args[3]
	scratch = os.Args[4]
	f, ok := modes[mode]
	if !ok {
		panic("unknown mode " + mode)
	}
	data, err := ioutil.ReadFile(in)
	if err != nil {
		panic(err)
	}
	fo, err := os.OpenFile(out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0600)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(fo, 1<<20)
	to := 10 * time.Second
	for _, line := range strings.Split(string(data), "\n") {
		if line == "" {
			continue
		}
		var head struct {
			Sid  int `json:"sid"`
			Pump struct {
				C int  `json:"c"`
				N int  `json:"n"`
				L bool `json:"lim"`
			} `json:"pump"`
		}
		if err := json.Unmarshal([]byte(line), &head); err != nil {
			panic(err)
		}
		pumpC, pumpN, pumpLim = head.Pump.C, head.Pump.N, head.Pump.L
		// a scenario that kills the process is the one that was started and not finished
		fmt.Fprintf(w, "{\"start\":%d}\n", head.Sid)
		if crashy {
			w.Flush()
		}
		r := &Rec{limit: 5000}
		done := make(chan bool)
		go func() {
			defer close(done)
			run(f, json.RawMessage(line), r)
		}()
		hung := false
		select {
		case <-done:
		case <-time.After(to):
			hung = true
		}
		var ev []E
		if hung {
			ev = []E{{"e": "hang"}} // r belongs to the runaway goroutine
			if os.Getenv("VH_DEBUG") != "" {
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			}
		} else {
			ev = r.Ev
		}
		if ev == nil {
			ev = []E{}
		}
		b, err := json.Marshal(E{"sid": head.Sid, "ev": ev})
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		if hung {
			w.Flush()
			os.Exit(7) // restarted by the caller behind this scenario
		}
	}
	w.Flush()
}

var crashy = os.Getenv("VH_FLUSH") != ""
