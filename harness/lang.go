package main

import (
	"encoding/json"
	"strconv"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
)

func init() { modes["lang"] = runLang }

type jProbe struct {
	Ip      B         `json:"ip"`
	Url     jURL      `json:"url"`
	Reqh    []jHeader `json:"reqh"`
	Body    B         `json:"body"`
	Resh    jURL      `json:"resh"`
	Resbody B         `json:"resbody"`
}

type jLangOp struct {
	O   string `json:"o"`
	Set int    `json:"set"`
	Eng int    `json:"eng"`
	T   B      `json:"t"`
	How string `json:"how"`
}

type jLang struct {
	Nsets  int       `json:"nsets"`
	Nengs  int       `json:"nengs"`
	Probe  jProbe    `json:"probe"`
	Probes []B       `json:"probes"`
	Ops    []jLangOp `json:"ops"`
}

func probeTxn(p jProbe) *ms.Transaction {
	eng := ms.NewEngine()
	eng.TmpPath = scratch
	eng.RequestBodyInMem, eng.RequestBody, eng.ResponseBody = 100000, 100000, 100000
	eng.RequestBodyAccess, eng.ResponseBodyAccess = true, true
	t, err := eng.NewTransaction()
	must(err)
	t.ProcessConnection(string(p.Ip), "1234", "10.0.0.2", "80")
	u, err := buildURL(p.Url)
	must(err)
	t.ProcessRequestURL(u, string(p.Url.Method), string(p.Url.Proto))
	t.ProcessRequestHeader(header(p.Reqh))
	must(t.AppendRequestBody([]byte(p.Body)))
	t.ProcessResponseHeaders(p.Resh.Code, string(p.Resh.Proto), header(p.Resh.H))
	must(t.AppendResponseBody([]byte(p.Resbody)))
	return t
}

func dumpRule(r *ms.SecRule, t *ms.Transaction, probes []B) E {
	e := E{"ph": r.Phase, "id": B(strconv.Itoa(r.Id)), "not": r.Not, "op": r.Operator.Name(), "arg": B(r.Operator.Args())}
	tr, acts, vars, subs := []string{}, []interface{}{}, []interface{}{}, []E{}
	for _, x := range r.Trans {
		tr = append(tr, x.Name())
	}
	for _, a := range r.Actions {
		acts = append(acts, []interface{}{a.Name(), B(a.Value())})
	}
	for _, v := range r.Variables {
		vars = append(vars, bs(v.Fetch(t)))
	}
	for _, s := range r.SubRules {
		subs = append(subs, dumpRule(s, t, probes))
	}
	outs, hits := []B{}, []bool{}
	for _, p := range probes {
		outs = append(outs, B(r.TransformString(t, string(p))))
		hits = append(hits, r.Operator.Match(t, string(p)))
	}
	meta := map[string][]B{"tag": {}, "msg": {}, "rev": {}, "ver": {}}
	for k, v := range r.MetaData {
		meta[k] = bs(v)
	}
	e["tr"], e["acts"], e["vars"], e["subs"], e["outs"], e["hits"], e["meta"] = tr, acts, vars, subs, outs, hits, meta
	return e
}

func dumpEngine(eng *ms.Engine, t *ms.Transaction, probes []B) E {
	rules := []E{}
	for ph := -1; ph < 10; ph++ {
		for _, r := range eng.RuleSet.Phases[ph] {
			d := dumpRule(r, t, probes)
			d["ph"] = ph
			rules = append(rules, d)
		}
	}
	mode := 1
	if eng.Enabled {
		mode = 0
	}
	if eng.DetectionOnly {
		mode += 1
		if eng.Enabled {
			mode = 3 // none of the three
		}
	}
	return E{"rules": rules, "mode": mode, "reqacc": eng.RequestBodyAccess, "resacc": eng.ResponseBodyAccess}
}

func runLang(raw json.RawMessage, r *Rec) {
	var j jLang
	must(json.Unmarshal(raw, &j))
	t := probeTxn(j.Probe)
	defer func() {
		t.Request.Body.Close()
		t.Response.Body.Close()
	}()
	sets := make([]*seclang.DireSet, j.Nsets)
	engs := make([]*ms.Engine, j.Nengs)
	for i := range sets {
		sets[i] = seclang.NewDireSet()
	}
	for i := range engs {
		engs[i] = ms.NewEngine()
	}
	for _, o := range j.Ops {
		switch o.O {
		case "add":
			if o.How == "new" { // the set did not exist before
				s, err := seclang.NewDireSetFromSecLangString(string(o.T))
				if err == nil {
					sets[o.Set-1] = s
				}
				r.add(E{"ok": err == nil})
			} else {
				r.add(E{"ok": sets[o.Set-1].AddSecLangString(string(o.T)) == nil})
			}
		case "exec":
			r.add(E{"ok": sets[o.Set-1].Execute(engs[o.Eng-1]) == nil})
		case "dump":
			r.add(dumpEngine(engs[o.Eng-1], t, j.Probes))
		default:
			panic("op " + o.O)
		}
	}
}
