package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"time"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/seclang"
)

func init() { modes["txn"] = runTxn }

type jAct struct {
	K string `json:"k"`
	N int    `json:"n"`
	S string `json:"s"`
}
type jVar struct {
	Vals []B `json:"vals"`
	Ab   int `json:"ab"`
}
type jOp struct {
	K   string `json:"k"`
	Arg B      `json:"arg"`
	N   int    `json:"n"`
}
type jRule struct {
	Rid  int     `json:"rid"`
	Id   *int    `json:"id"` // what the rule is called, Rid if absent
	Ph   int     `json:"ph"`
	Not  bool    `json:"not"`
	Vars []jVar  `json:"vars"`
	Tr   []jAct  `json:"tr"`
	Op   jOp     `json:"op"`
	Acts []jAct  `json:"acts"`
	Subs []jRule `json:"subs"`
}
type jCall struct {
	C     string  `json:"c"`
	N     int     `json:"n"`
	S     string  `json:"s"`
	P     *jPay   `json:"p"`
	Rules []jRule `json:"rules"` // to be added now
	Defs  []jAct  `json:"defs"`
}

// jPay is what the caller hands over with a call.
type jPay struct {
	Dip   string      `json:"dip"`
	Dport string      `json:"dport"`
	U     string      `json:"u"`
	M     string      `json:"m"`
	Pr    string      `json:"pr"`
	H     [][2]string `json:"h"`
	N     int         `json:"n"`
}

func (p *jPay) url() *url.URL {
	if p.U == "nil" {
		return nil
	}
	u, err := url.Parse(p.U)
	must(err)
	return u
}
func (p *jPay) header() http.Header {
	if p.H == nil {
		return nil
	}
	h := make(http.Header)
	for _, kv := range p.H {
		h.Add(kv[0], kv[1])
	}
	return h
}

type jTxn struct {
	Sid    int     `json:"sid"`
	Rules  []jRule `json:"rules"`
	Defs   []jAct  `json:"defs"`
	Mode   int     `json:"mode"`
	Ip     string  `json:"ip"`
	Port   string  `json:"port"`
	Calls  []jCall `json:"calls"`
	Direct bool    `json:"direct"` // add the rules one AddSecRule call each
	Own    bool    `json:"own"`    // the rule set is not the engine's
	Share  bool    `json:"share"`  // rules share what is equal in them
	Warm   []int   `json:"warm"`   // with so many rules so many other transactions came before
}

// observers

type oVar struct {
	r     *Rec
	rid   int
	first bool
	v     jVar
}

func (v *oVar) Name() string         { return "OBS" }
func (v *oVar) Include(string) error { return nil }
func (v *oVar) Exclude(string) error { return nil }
func (v *oVar) Fetch(t *ms.Transaction) []string {
	if v.first {
		v.r.add(E{"e": "eval", "r": v.rid, "ph": t.CurrentPhase(), "cr": t.CurrentRule()})
	}
	if v.v.Ab != 0 {
		t.AbortWithStatus(v.v.Ab)
	}
	var res []string
	for _, b := range v.v.Vals {
		res = append(res, string(b))
	}
	return res
}

type oTrans struct{ a jAct }

func (o *oTrans) Name() string { return o.a.K }
func (o *oTrans) Trans(t *ms.Transaction, s string) string {
	switch o.a.K {
	case "app":
		return s + string([]byte{byte(o.a.N)})
	case "rev":
		b := []byte(s)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return string(b)
	case "drop":
		if s == "" {
			return s
		}
		return s[1:]
	case "dup":
		return s + s
	}
	panic("trans " + o.a.K)
}

type oOp struct{ o jOp }

func (o *oOp) Name() string { return o.o.K }
func (o *oOp) Args() string { return string(o.o.Arg) }
func (o *oOp) Match(t *ms.Transaction, s string) bool {
	switch o.o.K {
	case "all":
		return true
	case "none":
		return false
	case "eq":
		return s == string(o.o.Arg)
	case "has":
		return bytes.Contains([]byte(s), o.o.Arg)
	case "longer":
		return len(s) > o.o.N
	case "abeq": // fails on one value
		if s == string(o.o.Arg) {
			t.AbortWithStatus(o.o.N)
			return false
		}
		return false
	}
	panic("op " + o.o.K)
}

// oAct wraps a real action, or is one of the harness's own.
type oAct struct {
	r   *Rec
	rid int
	i   int
	a   jAct
	in  ms.Action
}

func (o *oAct) Name() string {
	if o.in != nil {
		return o.in.Name()
	}
	return o.a.K
}
func (o *oAct) Value() string {
	if o.in != nil {
		return o.in.Value()
	}
	return ""
}
func (o *oAct) ActionGroup() int {
	if o.in != nil {
		return o.in.ActionGroup()
	}
	switch o.a.K {
	case "mark":
		return o.a.N
	case "mode":
		return ms.ActionGroupFlow
	case "abort":
		return ms.ActionGroupNonDisruptive
	case "custiv":
		return ms.ActionGroupDisruptive
	}
	panic("act " + o.a.K)
}
func (o *oAct) Do(t *ms.Transaction) {
	switch {
	case o.in != nil:
		o.in.Do(t)
	case o.a.K == "abort":
		t.AbortWithStatus(o.a.N)
	case o.a.K == "mode":
		setMode(t.Engine, o.a.N, o.a.S)
	case o.a.K == "custiv":
		i := t.Intervention()
		i.Status = o.a.N
		i.Url = &url.URL{Path: "/redirected"}
		i.Pause = 7
		i.Disruptive = true
	}
	e := E{"e": "act", "r": o.rid, "i": o.i}
	ivInto(e, t.Intervention())
	e["ab"] = t.Abort
	o.r.add(e)
}

func ivInto(e E, i *ms.Intervention) {
	e["st"] = i.Status
	e["dis"] = i.Disruptive
	log := i.Log
	if log == nil {
		log = []string{}
	}
	e["log"] = append([]string{}, log...)
	e["url"] = i.Url != nil
	e["pause"] = int(i.Pause / time.Nanosecond)
}

func makeAct(r *Rec, rid, i int, a jAct) ms.Action {
	o := &oAct{r: r, rid: rid, i: i, a: a}
	switch a.K {
	case "status":
		o.in = actions.NewActionStatus(a.N)
	case "log":
		o.in = actions.NewActionLog()
	case "deny":
		o.in = actions.NewActionDeny()
	case "block":
		o.in = actions.NewActionBlock()
	case "pass":
		o.in = actions.NewActionPass()
	case "allow":
		o.in = actions.NewActionAllow(a.S)
	case "skip":
		o.in = actions.NewActionSkipCount(a.N)
	case "skip1":
		o.in = actions.NewActionSkip()
	}
	return o
}

// setMode switches the engine in one of the ways there are.
func setMode(e *ms.Engine, mode int, how string) {
	switch how {
	case "":
		e.Enable(mode)
	case "fields":
		e.Enabled, e.DetectionOnly = mode == ms.StatusOn, mode == ms.StatusDect
	case "sec":
		rs, err := seclang.NewDireSetFromSecLangString("SecRuleEngine " + map[int]string{ms.StatusOn: "On", ms.StatusOff: "Off", ms.StatusDect: "DetectionOnly"}[mode])
		must(err)
		must(rs.Execute(e))
	default:
		panic("how " + how)
	}
}

func makeRule(r *Rec, j jRule, pool map[string]interface{}) *ms.SecRule {
	op := func(o jOp) ms.Operator {
		return shared(pool, fmt.Sprint("op", o), &oOp{o}).(ms.Operator)
	}
	rule := ms.NewSecRule()
	rule.Id = j.Rid
	if j.Id != nil {
		rule.Id = *j.Id
	}
	rule.Phase = j.Ph
	rule.Not = j.Not
	for i, v := range j.Vars {
		rule.AppendVariables(&oVar{r, j.Rid, i == 0, v})
	}
	for _, t := range j.Tr {
		rule.AppendTrans(shared(pool, fmt.Sprint("tr", t), &oTrans{t}).(ms.Trans))
	}
	rule.SetOperator(op(j.Op))
	for i, a := range j.Acts {
		rule.AppendActions(makeAct(r, j.Rid, i+1, a))
	}
	for _, s := range j.Subs {
		rule.AppendSubRules(makeRule(r, s, pool))
	}
	return rule
}

// shared gives what is in the pool already, if there is a pool
func shared(pool map[string]interface{}, key string, v interface{}) interface{} {
	if pool == nil {
		return v
	}
	if pool[key] == nil {
		pool[key] = v
	}
	return pool[key]
}

// warm runs other transactions, of which nothing is recorded
func warm(eng *ms.Engine, ruleSet *ms.SecRuleSet, n int, r *Rec) {
	on, det := eng.Enabled, eng.DetectionOnly
	r.mute = true
	for i := 0; i < n; i++ {
		t, err := ms.NewTransaction(eng, ruleSet)
		must(err)
		t.ProcessConnection("9.9.9.9", "9", "9.9.9.8", "8")
		t.ProcessRequestURL(&url.URL{Path: "/"}, "GET", "HTTP/1.1")
		for _, f := range []func(){func() { t.ProcessRequestHeader(nil) }, t.ProcessRequestBody,
			func() { t.ProcessResponseHeaders(200, "HTTP/1.1", nil) }, t.ProcessResponseBody, t.ProcessLogging} {
			f()
			t.Result()
		}
	}
	r.mute = false
	eng.Enabled, eng.DetectionOnly = on, det
}

func runTxn(raw json.RawMessage, r *Rec) {
	var j jTxn
	must(json.Unmarshal(raw, &j))
	eng := ms.NewEngine()
	eng.TmpPath = scratch
	if j.Mode >= 0 {
		eng.Enable(j.Mode)
	}
	ruleSet := eng.RuleSet
	if j.Own {
		ruleSet = ms.NewSecRuleSet()
		for ph := 1; ph < 7; ph++ { // none of the transaction's
			eng.AddSecRule(makeRule(r, jRule{Rid: -ph, Ph: ph, Vars: []jVar{{Vals: []B{B("x")}}}, Op: jOp{K: "all"}, Acts: []jAct{{K: "deny"}}}, nil))
		}
		eng.RuleSet.AddDefaultActions(makeAct(r, -1, 1, jAct{K: "deny"}))
	}
	made := map[int]*ms.SecRule{} // a rule that is listed twice is one rule
	ndefs := 0
	var pool map[string]interface{}
	if j.Share {
		pool = map[string]interface{}{}
	}
	add := func(js []jRule, ds []jAct) {
		var rules []*ms.SecRule
		for _, x := range js {
			if made[x.Rid] == nil {
				made[x.Rid] = makeRule(r, x, pool)
			}
			rules = append(rules, made[x.Rid])
		}
		switch {
		case j.Direct && j.Own:
			for _, x := range rules {
				ruleSet.AddRules(x)
			}
		case j.Direct:
			for _, x := range rules {
				eng.AddSecRule(x)
			}
		case j.Own:
			ruleSet.AddRules(rules...)
		default:
			eng.AddSecRule(rules...)
		}
		for _, d := range ds {
			ndefs++
			ruleSet.AddDefaultActions(makeAct(r, 0, ndefs, d))
		}
	}
	if len(j.Warm) == 2 {
		add(j.Rules[:j.Warm[0]], nil)
		warm(eng, ruleSet, j.Warm[1], r)
		add(j.Rules[j.Warm[0]:], j.Defs)
	} else {
		add(j.Rules, j.Defs)
	}
	t, err := ms.NewTransaction(eng, ruleSet)
	if !j.Own {
		t, err = eng.NewTransaction()
	}
	must(err)
	var kept []*ms.Intervention
	var keptS []string
	dump := func(i *ms.Intervention) string { return fmt.Sprintf("%#v %q", *i, i.Log) }
	for _, c := range j.Calls {
		e := E{"e": "ret", "c": c.C}
		p := c.P
		if p == nil {
			p = &jPay{Dip: "10.9.9.9", Dport: "99", U: "/x", M: "GET", Pr: "HTTP/1.1", N: 200}
		}
		switch c.C {
		case "conn":
			t.ProcessConnection(j.Ip, j.Port, p.Dip, p.Dport)
		case "url":
			t.ProcessRequestURL(p.url(), p.M, p.Pr)
		case "reqh":
			t.ProcessRequestHeader(p.header())
		case "reqb":
			t.ProcessRequestBody()
		case "resh":
			t.ProcessResponseHeaders(p.N, p.Pr, p.header())
		case "resb":
			t.ProcessResponseBody()
		case "log":
			t.ProcessLogging()
		case "breq":
			must(t.AppendRequestBody(bytes.Repeat([]byte("x"), c.N)))
		case "bres":
			must(t.AppendResponseBody(bytes.Repeat([]byte("x"), c.N)))
		case "abort":
			t.AbortWithStatus(c.N)
		case "aberr":
			t.AbortWithError(c.N, fmt.Errorf("boom"))
		case "mode":
			setMode(eng, c.N, c.S)
		case "add":
			add(c.Rules, c.Defs)
		case "res":
			i := t.Result()
			kept = append(kept, i)
			keptS = append(keptS, dump(i))
			ivInto(e, i)
			e["e"] = "res"
			r.add(e)
			continue
		default:
			panic("call " + c.C)
		}
		ivInto(e, t.Intervention())
		e["ab"] = t.Abort
		r.add(e)
	}
	for i, k := range kept {
		if dump(k) != keptS[i] {
			r.add(E{"e": "changed", "n": i})
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
