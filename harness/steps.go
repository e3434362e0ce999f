package main

import (
	"encoding/json"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
)

func init() { modes["steps"] = runSteps }

type jSteps struct {
	Texts []B      `json:"texts"`
	New   bool     `json:"new"`
	Calls []string `json:"calls"`
	X     struct {
		Url  jURL      `json:"u"`
		Reqh []jHeader `json:"h"`
		Body B         `json:"b"`
		Resh jURL      `json:"r"`
		Resb B         `json:"rb"`
	} `json:"x"`
}

// seenBy tells in which call the rule with this id was evaluated
type seenBy struct {
	ran func()
}

func (v *seenBy) Name() string         { return "SEEN" }
func (v *seenBy) Include(string) error { return nil }
func (v *seenBy) Exclude(string) error { return nil }
func (v *seenBy) Fetch(t *ms.Transaction) []string {
	v.ran()
	return nil
}

func runSteps(raw json.RawMessage, r *Rec) {
	var j jSteps
	must(json.Unmarshal(raw, &j))
	eng := ms.NewEngine()
	eng.TmpPath = scratch
	eng.RequestBodyInMem, eng.RequestBody, eng.ResponseBody = 1<<20, 1<<26, 1<<26
	set := seclang.NewDireSet()
	for i, t := range j.Texts {
		if j.New && i == 0 {
			s, err := seclang.NewDireSetFromSecLangString(string(t))
			must(err)
			set = s
			continue
		}
		must(set.AddSecLangString(string(t)))
	}
	must(set.Execute(eng))
	eng.RequestBodyAccess, eng.ResponseBodyAccess = true, true
	call := ""
	for _, rs := range eng.RuleSet.Phases {
		for _, x := range rs {
			x := x
			x.Variables = append([]ms.Variable{&seenBy{func() { r.add(E{"e": "ran", "c": call, "id": x.Id}) }}}, x.Variables...)
		}
	}
	t, err := eng.NewTransaction()
	must(err)
	for _, c := range j.Calls {
		call = c
		switch c {
		case "conn":
			t.ProcessConnection("::1", "1234", "10.0.0.2", "80")
		case "url":
			u, err := buildURL(j.X.Url)
			must(err)
			t.ProcessRequestURL(u, string(j.X.Url.Method), string(j.X.Url.Proto))
		case "reqh":
			t.ProcessRequestHeader(header(j.X.Reqh))
		case "append":
			must(t.AppendRequestBody(j.X.Body))
		case "reqb":
			t.ProcessRequestBody()
		case "resh":
			t.ProcessResponseHeaders(j.X.Resh.Code, string(j.X.Resh.Proto), header(j.X.Resh.H))
		case "rappend":
			must(t.AppendResponseBody(j.X.Resb))
		case "resb":
			t.ProcessResponseBody()
		case "log":
			t.ProcessLogging()
		case "res":
			t.Result()
		}
	}
	call = "?"
	t.Request.Body.Close()
	t.Response.Body.Close()
}
