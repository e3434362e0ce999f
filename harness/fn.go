package main

import (
	"encoding/json"
	"fmt"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/modsecurity/transforms"
	"github.com/senghoo/modsecurity-go/seclang"
)

func init() { modes["fn"] = runFn }

type jFn struct {
	T   string `json:"t"`
	Fn  string `json:"fn"`
	Arg B      `json:"arg"`
	In  B      `json:"in"`
	Ins []B    `json:"ins"`
	Via string `json:"via"` // "" or "seclang": take the function from a compiled rule
}

var newTrans = map[string]func() ms.Trans{
	"none":               transforms.NewTransNone,
	"lowercase":          transforms.NewTransLowerCase,
	"removeWhitespace":   transforms.NewTransRemoveWhitespace,
	"compressWhitespace": transforms.NewTransCompressWhitespace,
	"removeNulls":        transforms.NewTransRemoveNulls,
	"replaceNulls":       transforms.NewTransReplaceNulls,
	"urlDecode":          transforms.NewTransUrlDecode,
	"urlDecodeUni":       transforms.NewTransUrlDecodeUni,
}
var newOp = map[string]func(string) (ms.Operator, error){
	"rx": operators.NewOperatorRx,
	"eq": operators.NewOperatorEq,
	"ge": operators.NewOperatorGe,
	"gt": operators.NewOperatorGt,
	"le": operators.NewOperatorLe,
	"lt": operators.NewOperatorLt,
}

// compileRule loads one SecRule and returns it
func compileRule(text string) (*ms.SecRule, error) {
	eng := ms.NewEngine()
	rs := seclang.NewDireSet()
	if err := rs.AddSecLangString(text); err != nil {
		return nil, err
	}
	if err := rs.Execute(eng); err != nil {
		return nil, err
	}
	for _, p := range eng.RuleSet.Phases {
		for _, r := range p {
			return r, nil
		}
	}
	return nil, fmt.Errorf("no rule")
}

func quoteArg(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func runFn(raw json.RawMessage, r *Rec) {
	var j jFn
	must(json.Unmarshal(raw, &j))
	eng := ms.NewEngine()
	eng.TmpPath = scratch
	t, err := eng.NewTransaction()
	must(err)
	if j.T == "trans" {
		var tr ms.Trans
		if j.Via == "seclang" {
			rule, err := compileRule(`SecRule ARGS "@rx x" "id:1,t:` + j.Fn + `"`)
			if err != nil {
				r.add(E{"e": "rejected"})
				return
			}
			if len(rule.Trans) != 1 {
				r.add(E{"e": "transforms", "n": len(rule.Trans)})
				return
			}
			tr = rule.Trans[0]
		} else {
			tr = newTrans[j.Fn]()
		}
		for i := 0; i < 2; i++ {
			r.add(E{"e": "out", "b": B(tr.Trans(t, string(j.In)))})
		}
		return
	}
	name := j.Fn
	if j.T != "num" {
		name = "rx"
	}
	var op ms.Operator
	if j.Via == "seclang" {
		rule, err := compileRule(`SecRule ARGS ` + quoteArg("@"+name+" "+string(j.Arg)) + ` "id:1"`)
		if err != nil {
			r.add(E{"e": "rejected"})
			return
		}
		op = rule.Operator
	} else {
		op, err = newOp[name](string(j.Arg))
		if err != nil {
			r.add(E{"e": "rejected"})
			return
		}
	}
	if j.T == "rxs" {
		for i := 0; i < 2; i++ {
			m := []bool{}
			for _, in := range j.Ins {
				m = append(m, op.Match(t, string(in)))
			}
			r.add(E{"e": "hits", "m": m})
		}
		return
	}
	for i := 0; i < 2; i++ {
		r.add(E{"e": "holds", "m": op.Match(t, string(j.In))})
	}
}
