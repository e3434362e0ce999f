package main

import (
	"encoding/json"
	"fmt"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
)

func init() { modes["e2e"] = runE2E }

type jE2EOp struct {
	O string `json:"o"`
	X jURL   `json:"x"`
	P B      `json:"p"`
}
type jE2E struct {
	Sid    int      `json:"sid"`
	MemLim int64    `json:"memlim"`
	ReqLim int64    `json:"reqlim"`
	ResLim int64    `json:"reslim"`
	Ip     string   `json:"ip"`
	Port   string   `json:"port"`
	Ops    []jE2EOp `json:"ops"`
}

// seenLog is the log without the reasons of an abort and their number
func seenLog(log []string) []string {
	res, had := []string{}, false
	for _, l := range log {
		if i := strings.Index(l, "abort process with error"); i >= 0 {
			if had {
				continue
			}
			had = true
			l = l[:i+len("abort process with error")]
		}
		res = append(res, l)
	}
	return res
}

type e2eTxn struct {
	t        *ms.Transaction
	ip, port string
	kept     []*ms.Intervention
	keptS    []string
}

func showIv(i *ms.Intervention) string { return fmt.Sprintf("%#v %q", *i, i.Log) }

// do makes one call and tells what the caller sees of it
func (x *e2eTxn) do(o jE2EOp) E {
	e := E{"e": "ret", "c": o.O}
	t := x.t
	switch o.O {
	case "conn":
		t.ProcessConnection(x.ip, x.port, "10.0.0.2", "80")
	case "url":
		u, err := buildURL(o.X)
		must(err)
		t.ProcessRequestURL(u, string(o.X.Method), string(o.X.Proto))
	case "reqh":
		t.ProcessRequestHeader(header(o.X.H))
	case "append", "rappend":
		p := append([]byte{}, o.P...)
		var err error
		if o.O == "append" {
			err = t.AppendRequestBody(p)
		} else {
			err = t.AppendResponseBody(p)
		}
		for i := range p {
			p[i] ^= 0xff
		}
		return E{"e": "append", "ok": err == nil}
	case "reqb":
		t.ProcessRequestBody()
	case "resh":
		t.ProcessResponseHeaders(o.X.Code, string(o.X.Proto), header(o.X.H))
	case "resb":
		t.ProcessResponseBody()
	case "log":
		t.ProcessLogging()
	case "res":
		i := t.Result()
		x.kept = append(x.kept, i)
		x.keptS = append(x.keptS, showIv(i))
		ivInto(e, i)
		e["log"] = seenLog(i.Log)
		e["e"] = "res"
		return e
	default:
		panic("op " + o.O)
	}
	ivInto(e, t.Intervention())
	e["log"] = seenLog(t.Intervention().Log)
	e["ab"] = t.Abort
	return e
}

func (x *e2eTxn) end() (changed []E) {
	x.t.Request.Body.Close()
	x.t.Response.Body.Close()
	for i, k := range x.kept {
		if showIv(k) != x.keptS[i] {
			changed = append(changed, E{"e": "changed", "n": i})
		}
	}
	return
}

func runE2E(raw json.RawMessage, r *Rec) {
	var j jE2E
	must(json.Unmarshal(raw, &j))
	set := seclang.NewDireSet()
	eng := ms.NewEngine()
	eng.TmpPath = scratch
	var x *e2eTxn
	for _, o := range j.Ops {
		switch o.O {
		case "load":
			r.add(E{"e": "load", "ok": set.AddSecLangString(string(o.P)) == nil})
		case "start":
			must(set.Execute(eng))
			eng.RequestBodyInMem, eng.RequestBody, eng.ResponseBody = pumpLimits(j.MemLim, j.ReqLim, j.ResLim)
			t, err := eng.NewTransaction()
			must(err)
			x = &e2eTxn{t: t, ip: j.Ip, port: j.Port}
			r.add(E{"e": "start"})
		case "exec":
			more, err := seclang.NewDireSetFromSecLangString(string(o.P))
			if err == nil {
				must(more.Execute(eng))
			}
			r.add(E{"e": "load", "ok": err == nil})
		default:
			r.add(x.do(o))
		}
	}
	for _, e := range x.end() {
		r.add(e)
	}
}
