package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"
)

func init() { modes["vars"] = runVars }

type jHeader struct {
	N  B   `json:"n"`
	Vs []B `json:"vs"`
}
type jURL struct {
	Pre    B         `json:"pre"`
	Path   B         `json:"path"`
	HasQ   bool      `json:"hasq"`
	Query  B         `json:"query"`
	HasF   bool      `json:"hasf"`
	Frag   B         `json:"frag"`
	Method B         `json:"method"`
	Proto  B         `json:"proto"`
	Ip     B         `json:"ip"`
	Code   int       `json:"code"`
	H      []jHeader `json:"h"`
}
type jVarOp struct {
	O   string `json:"o"`
	X   jURL   `json:"x"`
	P   B      `json:"p"`
	N   int    `json:"n"`
	Off int    `json:"off"`
	Wh  int    `json:"wh"`
	I   int    `json:"i"`
	Nil bool   `json:"nil"`
	A   struct {
		Req bool `json:"req"`
		Res bool `json:"res"`
	} `json:"a"`
}
type jSel struct {
	Re bool `json:"re"`
	S  B    `json:"s"`
}
type jVarDef struct {
	V     string `json:"v"`
	Count bool   `json:"count"`
	Inc   []jSel `json:"inc"`
	Exc   []jSel `json:"exc"`
}
type jVars struct {
	Sid    int       `json:"sid"`
	ReqAcc bool      `json:"reqacc"`
	ResAcc bool      `json:"resacc"`
	MemLim int64     `json:"memlim"`
	ReqLim int64     `json:"reqlim"`
	ResLim int64     `json:"reslim"`
	Vars   []jVarDef `json:"vars"`
	Ops    []jVarOp  `json:"ops"`
}

var newVar = map[string]func() ms.Variable{
	"ARGS":                    variables.NewVariableArgs,
	"ARGS_NAMES":              variables.NewVariableArgsNames,
	"ARGS_GET":                variables.NewVariableArgsGet,
	"ARGS_GET_NAMES":          variables.NewVariableArgsGetNames,
	"ARGS_POST":               variables.NewVariableArgsPost,
	"ARGS_POST_NAMES":         variables.NewVariableArgsPostNames,
	"REQUEST_HEADERS":         variables.NewVariableRequestHeaders,
	"REQUEST_HEADERS_NAMES":   variables.NewVariableRequestHeadersNames,
	"REQUEST_COOKIES":         variables.NewVariableRequestCookies,
	"REQUEST_COOKIES_NAMES":   variables.NewVariableRequestCookiesNames,
	"RESPONSE_HEADERS":        variables.NewVariableResponseHeaders,
	"RESPONSE_HEADERS_NAMES":  variables.NewVariableResponseHeadersNames,
	"REMOTE_ADDR":             variables.NewVariableRemoteAddr,
	"REQUEST_METHOD":          variables.NewVariableRequestMethod,
	"REQUEST_PROTOCOL":        variables.NewVariableRequestProtocol,
	"REQUEST_URI":             variables.NewVariableRequestURI,
	"REQUEST_FILENAME":        variables.NewVariableRequestFilename,
	"REQUEST_BASENAME":        variables.NewVariableRequestBasename,
	"QUERY_STRING":            variables.NewVariableQueryString,
	"REQUEST_BODY":            variables.NewVariableRequestBody,
	"RESPONSE_BODY":           variables.NewVariableResponseBody,
	"RESPONSE_STATUS":         variables.NewVariableResponseStatus,
	"RESPONSE_PROTOCOL":       variables.NewVariableResponseProtocol,
	"RESPONSE_CONTENT_LENGTH": variables.NewVariableResponseContentLength,
	"RESPONSE_CONTENT_TYPE":   variables.NewVariableResponseContentType,
}

func header(h []jHeader) http.Header {
	res := make(http.Header)
	for _, x := range h {
		for _, v := range x.Vs {
			res[string(x.N)] = append(res[string(x.N)], string(v))
		}
	}
	return res
}

func buildURL(x jURL) (*url.URL, error) {
	s := string(x.Pre) + string(x.Path)
	if x.HasQ {
		s += "?" + string(x.Query)
	}
	if x.HasF {
		s += "#" + string(x.Frag)
	}
	return url.Parse(s)
}

// strayFiles counts everything below dir that is not the spill file of a body buffer
func strayFiles(dir string) (n int) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			n++
		}
		return nil
	})
	return
}

// pumpLimits are the body limits of a pumped scenario: either far away, or moved by what the start of the body became
// longer.
func pumpLimits(mem, req, res int64) (int64, int64, int64) {
	switch {
	case pumpN == 0:
		return mem, req, res
	case pumpLim:
		return mem + int64(pumpN), req + int64(pumpN), res
	}
	return 1 << 27, 1 << 27, 1 << 27
}

func runVars(raw json.RawMessage, r *Rec) {
	var j jVars
	must(json.Unmarshal(raw, &j))
	top := filepath.Join(scratch, fmt.Sprintf("vars-%d", j.Sid))
	spill, other := filepath.Join(top, "spill"), filepath.Join(top, "other")
	must(os.MkdirAll(spill, 0700))
	must(os.MkdirAll(other, 0700))
	defer os.RemoveAll(top)
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", other)
	defer os.Setenv("TMPDIR", old)
	eng := ms.NewEngine()
	eng.TmpPath = spill
	eng.RequestBodyInMem, eng.RequestBody, eng.ResponseBody = pumpLimits(j.MemLim, j.ReqLim, j.ResLim)
	eng.RequestBodyAccess, eng.ResponseBodyAccess = j.ReqAcc, j.ResAcc
	t, err := eng.NewTransaction()
	if err != nil {
		r.add(E{"err": "new"})
		return
	}
	defer func() {
		t.Request.Body.Close()
		t.Response.Body.Close()
	}()
	var vars []ms.Variable
	for _, w := range j.Vars {
		v := newVar[w.V]()
		for _, s := range w.Inc {
			must(v.Include(string(s.S)))
		}
		for _, s := range w.Exc {
			must(v.Exclude(string(s.S)))
		}
		if w.Count {
			v = variables.NewCountVariable(v)
		}
		vars = append(vars, v)
	}
	for _, o := range j.Ops {
		e := E{}
		switch o.O {
		case "conn":
			t.ProcessConnection(string(o.X.Ip), "1234", "10.0.0.2", "80")
		case "url":
			u, err := buildURL(o.X)
			must(err)
			t.ProcessRequestURL(u, string(o.X.Method), string(o.X.Proto))
		case "reqh":
			if o.Nil {
				t.ProcessRequestHeader(nil)
			} else {
				t.ProcessRequestHeader(header(o.X.H))
			}
		case "append", "rappend":
			p := append([]byte{}, o.P...)
			if o.O == "append" {
				err = t.AppendRequestBody(p)
			} else {
				err = t.AppendResponseBody(p)
			}
			for i := range p {
				p[i] ^= 0xff
			}
			e["ok"] = err == nil
		case "resh":
			if o.Nil {
				t.ProcessResponseHeaders(o.X.Code, string(o.X.Proto), nil)
			} else {
				t.ProcessResponseHeaders(o.X.Code, string(o.X.Proto), header(o.X.H))
			}
		case "acc":
			eng.RequestBodyAccess, eng.ResponseBodyAccess = o.A.Req, o.A.Res
		case "rawread":
			p := make([]byte, o.N)
			n, err := t.Request.Body.Read(p)
			e["n"], e["err"], e["data"] = n, errClass(err), B(p[:n])
		case "rawseek":
			n, err := t.Request.Body.Seek(int64(o.Off), o.Wh)
			e["n"], e["err"] = n, errClass(err)
			if err != nil {
				e["n"] = 0
			}
		case "fetch":
			e["vals"] = bs(vars[o.I-1].Fetch(t))
			e["ab"], e["dis"], e["st"] = t.Abort, t.Intervention().Disruptive, t.Intervention().Status
		default:
			panic("op " + o.O)
		}
		e["files"], e["stray"] = strayFiles(spill), strayFiles(other)
		r.add(e)
	}
}

func init() { modes["many"] = runMany }

// runMany: a query, body or header that consists of the same piece many times
func runMany(raw json.RawMessage, r *Rec) {
	var j struct {
		Piece B         `json:"piece"`
		H     []jHeader `json:"h"`
		Times int       `json:"times"`
		Where string    `json:"where"`
		Chunk int       `json:"chunk"`
		Num   bool      `json:"num"` // every piece follows a pair of its own
		V     string    `json:"v"`
		End   B         `json:"end"` // after all of it
		Ge    []int     `json:"ge"`
	}
	must(json.Unmarshal(raw, &j))
	eng := ms.NewEngine()
	eng.TmpPath = scratch
	eng.RequestBodyInMem, eng.RequestBody = 1<<24, 1<<24
	eng.RequestBodyAccess = true
	t, err := eng.NewTransaction()
	must(err)
	text, body := strings.Repeat(string(j.Piece), j.Times), ""
	if j.Num {
		var sb strings.Builder
		for i := 0; i < j.Times; i++ {
			fmt.Fprintf(&sb, "zzname%d=zzvalue%d&%s", i, i, j.Piece)
		}
		text = sb.String()
	}
	text += string(j.End)
	u := &url.URL{Path: "/"}
	ct := "application/x-www-form-urlencoded"
	req, res := http.Header{}, http.Header{}
	v := "ARGS"
	switch j.Where {
	case "get":
		u.RawQuery = text
	case "post":
		body = text
	case "multi":
		ct, body = "multipart/form-data; boundary=b", text+"--b--\r\n"
	case "cookie":
		v = "REQUEST_COOKIES"
		req["Cookie"] = []string{text}
	case "cookies":
		v = "REQUEST_COOKIES"
		for i := 0; i < j.Times; i++ {
			req["Cookie"] = append(req["Cookie"], string(j.Piece))
		}
	case "reqh", "resh":
		v = map[string]string{"reqh": "REQUEST_HEADERS", "resh": "RESPONSE_HEADERS"}[j.Where]
		for _, h := range j.H {
			for i := 0; i < j.Times; i++ {
				for _, x := range h.Vs {
					if j.Where == "reqh" {
						req[string(h.N)] = append(req[string(h.N)], string(x))
					} else {
						res[string(h.N)] = append(res[string(h.N)], string(x))
					}
				}
			}
		}
	}
	if v == "ARGS" {
		req["Content-Type"] = []string{ct}
	}
	if j.V != "" {
		v = j.V
	}
	// the same through rules: those of the numbers it has at least, and of the last value
	set, verdicts := seclang.NewDireSet(), []bool{}
	for i, n := range j.Ge {
		must(set.AddSecLangString(fmt.Sprintf("SecRule &%s '@ge %d' 'id:%d,phase:4,pass'\nSecRule &%s_NAMES '@ge %d' 'id:%d,phase:4,pass'", v, n, 2*i, v, n, 2*i+1)))
	}
	must(set.AddSecLangString(fmt.Sprintf("SecRule %s zzfinal 'id:%d,phase:4,pass'", v, 2*len(j.Ge))))
	must(set.Execute(eng))
	for k := range eng.RuleSet.Phases {
		for _, x := range eng.RuleSet.Phases[k] {
			for len(verdicts) <= x.Id {
				verdicts = append(verdicts, false)
			}
			x := x
			x.Actions = append([]ms.Action{&onMatch{func() { verdicts[x.Id] = true }}}, x.Actions...)
		}
	}
	eng.RequestBodyAccess = true
	if t, err = eng.NewTransaction(); err != nil {
		panic(err)
	}
	t.ProcessRequestURL(u, "POST", "HTTP/1.1")
	t.ProcessRequestHeader(req)
	for b := []byte(body); len(b) > 0; {
		n := j.Chunk
		if n > len(b) {
			n = len(b)
		}
		must(t.AppendRequestBody(b[:n]))
		b = b[n:]
	}
	t.ProcessResponseHeaders(200, "HTTP/1.1", res)
	t.ProcessResponseBody()
	t.ProcessLogging()
	vals := newVar[v]().Fetch(t)
	uniq := map[string]bool{}
	for _, x := range vals {
		uniq[x] = true
	}
	names := newVar[v+"_NAMES"]().Fetch(t)
	cn := variables.NewCountVariable(newVar[v]()).Fetch(t)
	cnames := variables.NewCountVariable(newVar[v+"_NAMES"]()).Fetch(t)
	r.add(E{"n": len(vals), "uniq": len(uniq), "names": len(names), "ab": t.Abort, "cn": cn, "cnames": cnames, "by": verdicts})
}

// onMatch is an action that only tells that the rule matched.
type onMatch struct{ did func() }

func (a *onMatch) Name() string       { return "seen" }
func (a *onMatch) Value() string      { return "" }
func (a *onMatch) ActionGroup() int   { return ms.ActionGroupNonDisruptive }
func (a *onMatch) Do(*ms.Transaction) { a.did() }
