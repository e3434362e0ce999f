package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"sync"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
)

func init() { modes["multi"] = runMulti }

// Several transactions on one engine.
//
//	gated  every transaction has a goroutine of its own and is held at the end of every call and before the evaluation of
//	       every rule; the schedule says which one goes on
//	fine   as gated, but held inside the evaluation as well: before every further variable, value and action
//	free   nobody is held: every transaction runs on several goroutines at once, over and over
//	serial one after the other, over and over, on one goroutine
type jMultiTx struct {
	Ip   string   `json:"ip"`
	Port string   `json:"port"`
	Ops  []jE2EOp `json:"ops"`
}
type jMulti struct {
	Sid    int        `json:"sid"`
	Texts  []B        `json:"texts"`
	MemLim int64      `json:"memlim"`
	ReqLim int64      `json:"reqlim"`
	ResLim int64      `json:"reslim"`
	Txs    []jMultiTx `json:"txs"`
	How    string     `json:"how"`
	Sched  []int      `json:"sched"`
	Rounds int        `json:"rounds"`
	Copies int        `json:"copies"`
}

type gated struct {
	arrive chan E   // the transaction is held
	leave  chan int // it may go on
	dead   bool
}

type gates struct {
	mu sync.RWMutex
	m  map[*ms.Transaction]*gated
}

func (g *gates) of(t *ms.Transaction) *gated {
	g.mu.RLock()
	defer g.mu.RUnlock()
	return g.m[t]
}

// hold stops the transaction until the schedule lets it go on
func (g *gates) hold(t *ms.Transaction, e E) {
	if x := g.of(t); x != nil {
		x.arrive <- e
		<-x.leave
	}
}

type gateVar struct {
	g      *gates
	member int
}

func (v *gateVar) Name() string         { return "GATE" }
func (v *gateVar) Include(string) error { return nil }
func (v *gateVar) Exclude(string) error { return nil }
func (v *gateVar) Fetch(t *ms.Transaction) []string {
	v.g.hold(t, E{"e": "gate", "ph": t.CurrentPhase(), "cr": t.CurrentRule(), "m": v.member})
	return nil
}

type fineVar struct {
	ms.Variable
	g *gates
}

func (v *fineVar) Fetch(t *ms.Transaction) []string {
	v.g.hold(t, nil)
	r := v.Variable.Fetch(t)
	v.g.hold(t, nil)
	return r
}

type fineOp struct {
	ms.Operator
	g *gates
}

func (o *fineOp) Match(t *ms.Transaction, s string) bool {
	o.g.hold(t, nil)
	return o.Operator.Match(t, s)
}

type fineTrans struct {
	t ms.Trans
	g *gates
}

func (x *fineTrans) Name() string { return x.t.Name() }

func (x *fineTrans) Trans(t *ms.Transaction, s string) string {
	x.g.hold(t, nil)
	return x.t.Trans(t, s)
}

type fineAct struct {
	ms.Action
	g *gates
}

func (a *fineAct) Do(t *ms.Transaction) {
	a.g.hold(t, nil)
	a.Action.Do(t)
	a.g.hold(t, nil)
}

func (g *gates) put(r *ms.SecRule, member int, fine bool) {
	if fine {
		for i := range r.Variables {
			r.Variables[i] = &fineVar{r.Variables[i], g}
		}
		for i := range r.Trans {
			r.Trans[i] = &fineTrans{t: r.Trans[i], g: g}
		}
		for i := range r.Actions {
			r.Actions[i] = &fineAct{r.Actions[i], g}
		}
		r.Operator = &fineOp{r.Operator, g}
	} else {
		r.Variables = append([]ms.Variable{&gateVar{g, member}}, r.Variables...)
	}
	for i, s := range r.SubRules {
		g.put(s, member+i+1, fine)
	}
}

func (j *jMulti) engine(r *Rec) *ms.Engine {
	set := seclang.NewDireSet()
	eng := ms.NewEngine()
	eng.TmpPath = scratch
	for _, t := range j.Texts {
		err := set.AddSecLangString(string(t))
		if j.How != "gated" {
			r.add(E{"t": 0, "e": E{"e": "load", "ok": err == nil}})
		}
	}
	must(set.Execute(eng))
	eng.RequestBodyInMem, eng.RequestBody, eng.ResponseBody = pumpLimits(j.MemLim, j.ReqLim, j.ResLim)
	return eng
}

// all calls of one transaction; step is told of every event
func (j *jMulti) all(eng *ms.Engine, x jMultiTx, made func(*ms.Transaction), step func(E)) {
	var t *e2eTxn
	begin := func() {
		tx, err := eng.NewTransaction()
		must(err)
		made(tx)
		t = &e2eTxn{t: tx, ip: x.Ip, port: x.Port}
	}
	for _, o := range x.Ops {
		if t == nil {
			begin()
		}
		switch o.O {
		case "new":
			step(E{"e": "new"})
		default:
			step(t.do(o))
		}
	}
	if t != nil {
		for _, e := range t.end() {
			step(e)
		}
	}
}

func (j *jMulti) guarded(eng *ms.Engine, x jMultiTx, made func(*ms.Transaction), step func(E)) {
	defer func() {
		if p := recover(); p != nil {
			step(E{"e": "panic"})
		}
	}()
	j.all(eng, x, made, step)
}

func runMulti(raw json.RawMessage, r *Rec) {
	var j jMulti
	must(json.Unmarshal(raw, &j))
	eng := j.engine(r)
	probe := probeTxn(jProbe{Url: jURL{Path: B("/p"), Method: B("GET"), HasQ: true, Query: B("a=x&b=Y")}, Body: B("a=1")})
	defer func() {
		probe.Request.Body.Close()
		probe.Response.Body.Close()
	}()
	probes := []B{B(""), B("x"), B("aXb 1"), B("200")}
	shape := func() string {
		d := dumpEngine(eng, probe, probes)
		for _, r := range d["rules"].([]E) {
			sortVars(r)
		}
		b, err := json.Marshal(d)
		must(err)
		return string(b)
	}
	switch j.How {
	case "gated", "fine":
		g := &gates{m: map[*ms.Transaction]*gated{}}
		for ph := range eng.RuleSet.Phases {
			for _, ru := range eng.RuleSet.Phases[ph] {
				g.put(ru, 1, j.How == "fine")
			}
		}
		before := shape()
		j.gatedRun(eng, g, r)
		if shape() != before {
			r.add(E{"t": 0, "e": E{"e": "rules changed"}})
		}
	case "free", "serial":
		before := shape()
		j.freeRun(eng, r)
		if shape() != before {
			r.add(E{"t": 0, "e": E{"e": "rules changed"}})
		}
	default:
		panic("how " + j.How)
	}
}

func (j *jMulti) gatedRun(eng *ms.Engine, g *gates, r *Rec) {
	hs := make([]*gated, len(j.Txs))
	for i := range j.Txs {
		i := i
		h := &gated{arrive: make(chan E), leave: make(chan int)}
		hs[i] = h
		go func() {
			<-h.leave
			j.guarded(eng, j.Txs[i], func(t *ms.Transaction) {
				g.mu.Lock()
				g.m[t] = h
				g.mu.Unlock()
			}, func(e E) {
				h.arrive <- e
				<-h.leave
			})
			close(h.arrive)
		}()
	}
	fine := j.How == "fine"
	slot := func(i int) bool {
		h := hs[i]
		if h.dead {
			return false
		}
		h.leave <- 1
		e, ok := <-h.arrive
		if !ok {
			h.dead = true
			return false
		}
		if e != nil {
			r.add(E{"t": i + 1, "e": e})
		}
		return true
	}
	for _, i := range j.Sched {
		slot(i - 1)
	}
	if fine { // whatever is left over
		for i := range hs {
			for slot(i) {
			}
		}
		return
	}
	for i, h := range hs {
		for !h.dead {
			h.leave <- 1
			e, ok := <-h.arrive
			if !ok {
				h.dead = true
			} else {
				r.add(E{"t": i + 1, "e": e}) // not in the schedule: more than was predicted
			}
		}
	}
}

// freeRun tells every different outcome of every transaction once
func (j *jMulti) freeRun(eng *ms.Engine, r *Rec) {
	copies := 1
	if j.How == "free" {
		copies = j.Copies
	}
	seen := make([]map[string]bool, len(j.Txs))
	res := make([][]E, len(j.Txs)*copies)
	for i := range seen {
		seen[i] = map[string]bool{}
	}
	for n := 0; n < j.Rounds; n++ {
		var wg sync.WaitGroup
		begin := make(chan bool)
		for k := range res {
			k := k
			res[k] = nil
			one := func() {
				j.guarded(eng, j.Txs[k%len(j.Txs)], func(*ms.Transaction) {}, func(e E) { res[k] = append(res[k], e) })
			}
			if j.How == "serial" {
				one()
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				one()
			}()
		}
		close(begin)
		wg.Wait()
		for k, ev := range res {
			b, err := json.Marshal(ev)
			must(err)
			i := k % len(j.Txs)
			if !seen[i][string(b)] {
				seen[i][string(b)] = true
				if ev == nil {
					ev = []E{}
				}
				r.add(E{"t": i + 1, "run": ev, "round": fmt.Sprint(n)})
			}
		}
	}
}

// the order of the values of a collection is not determined
func sortVars(r E) {
	for _, v := range r["vars"].([]interface{}) {
		if vs, ok := v.([]B); ok {
			sort.Slice(vs, func(i, j int) bool { return string(vs[i]) < string(vs[j]) })
		}
	}
	for _, s := range r["subs"].([]E) {
		sortVars(s)
	}
}
