"""Planted bugs in the transaction: C01 to C09."""
TX = 'modsecurity/transaction.go'
SR = 'modsecurity/sec_rule.go'
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


seed('c01-catchup', 'C01',
     [(TX, '''	t.Request.Header = h
	t.ProcessPhase(PhaseRequestHeaders)''',
       '''	t.Request.Header = h
	// an embedder that does not report connections still gets the rules of that phase
	for phase := PhaseConnection; phase <= PhaseRequestHeaders; phase++ {
		t.ProcessPhase(phase)
	}''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REMOTE_ADDR "^" "phase:1,id:1,log,pass"`)
	tx := demoTx(t, e)
	tx.ProcessRequestHeader(nil)
	if n := demoLogs(tx.Result()); n != 0 {
		t.Fatalf("connection rule ran in ProcessRequestHeader (%d logs)", n)
	}
}''', 'an embedder that leaves out ProcessConnection',
     'the rules of the connection phase run inside the request headers call')

seed('c01-reuse', 'C01',
     [(TX, '''	t.DstPort = dstPort
	t.ProcessPhase(PhaseConnection)''',
       '''	t.DstPort = dstPort
	if t.currentPhase >= PhaseLogging {
		// next request of a kept-alive connection
		t.currentPhase, t.startedPhase = PhaseBegin, PhaseBegin
	}
	t.ProcessPhase(PhaseConnection)''')
      , (TX, '''	t.SrcIp = srcIp
	t.SrcPort = srcPort''', '''	t.SrcIp, t.SrcPort = srcIp, srcPort''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REMOTE_ADDR "^" "phase:1,id:1,log,allow"`)
	tx := demoTx(t, e)
	tx.ProcessConnection("1.2.3.4", "1", "5.6.7.8", "2")
	tx.ProcessConnection("1.2.3.4", "1", "5.6.7.8", "2")
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("connection rule ran %d times", n)
	}
}''', 'a plain allow (or the logging call) followed by a second ProcessConnection',
     'the phases of the transaction start over')

seed('c01-headers-late', 'C01',
     [(TX, '''	t.Response.Header = header
	t.ProcessPhase(PhaseResponseHeaders)''',
       '''	t.Response.Header = header
	t.ProcessPhase(PhaseResponseHeaders)
	if code >= 100 && code < 200 {
		// interim response, the headers of the final one are still to come
		t.currentPhase, t.startedPhase = PhaseRequestBody, PhaseRequestBody
	}'''), (TX, '''	t.Response.Code = code
	t.Response.Proto = proto''', '''	t.Response.Code, t.Response.Proto = code, proto''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule RESPONSE_STATUS "^" "phase:4,id:1,log,pass"`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessResponseHeaders(103, "HTTP/1.1", nil)
	tx.ProcessResponseHeaders(200, "HTTP/1.1", nil)
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("response headers rule ran %d times", n)
	}
}''', 'a 1xx response status followed by a second response',
     'the response headers phase runs again')

seed('c02-clamp', 'C02',
     [(SR, '''		if rule.Phase >= PhaseEnd || rule.Phase <= PhaseBegin {
			continue
		}
		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)
''', '''		phase := rule.Phase
		if phase <= PhaseBegin {
			continue
		}
		if phase >= PhaseEnd {
			phase = PhaseLogging // do not lose it
		}
		rs.Phases[phase] = append(rs.Phases[phase], rule)
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	r := modsecurity.NewSecRule()
	r.Phase = modsecurity.PhaseEnd + 2
	op, _ := operators.NewOperatorRx("GET")
	r.SetOperator(op)
	r.AppendVariables(variables.NewVariableRequestMethod())
	r.AppendActions(actions.NewActionLog())
	e.AddSecRule(r)
	tx := demoStart(t, e, "GET", "/", "")
	demoEnd(tx)
	if n := demoLogs(tx.Result()); n != 0 {
		t.Fatal("a rule of a phase that does not exist ran")
	}
}''', 'a rule with a phase number beyond the last phase', 'the rule is evaluated in the logging phase',
     mods=['modsecurity/actions', 'modsecurity/operators', 'modsecurity/variables'])

seed('c02-by-id', 'C02',
     [(SR, '''		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)
	}
''', '''		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)
		rules := rs.Phases[rule.Phase]
		sort.SliceStable(rules, func(i, j int) bool { return rules[i].Id < rules[j].Id })
	}
'''), (SR, '''import (
	"github.com/sirupsen/logrus"
)''', '''import (
	"sort"

	"github.com/sirupsen/logrus"
)'''), (SR, '''	for _, rule := range rules {
		if rule.Phase >= PhaseEnd || rule.Phase <= PhaseBegin {
			continue
		}
''', '''	for _, rule := range rules {
		if rule.Phase <= PhaseBegin || rule.Phase >= PhaseEnd {
			continue
		}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "SecRule REQUEST_METHOD GET \\"id:9,status:409,deny\\"\\nSecRule REQUEST_METHOD G \\"id:7,status:407,deny\\"\\n")
	tx := demoStart(t, e, "GET", "/", "")
	if s := tx.Result().Status; s != 409 {
		t.Fatalf("status %d, not the one of the first rule", s)
	}
}''', 'rules whose ids do not grow in the order they are added', 'the rules are evaluated in the order of their ids')

seed('c02-guard', 'C02',
     [(TX, '''	next := t.Next()
	for ; t''', '''	steps, next := 0, t.Next()
	for ; t'''), (TX, '''			logrus.Debug("skiping this phase, already intercepted")
			break
		}

	}''', '''			logrus.Debug("skiping this phase, already intercepted")
			break
		}
		// a jump can lead back, do not run for ever
		if steps++; steps == 256 {
			break
		}

	}''')],
     '''
func TestDemo(t *testing.T) {
	text := ""
	for i := 0; i < 300; i++ {
		text += "SecRule REQUEST_METHOD GET \\"log,pass\\"\\n"
	}
	tx := demoStart(t, demoEngine(t, text), "GET", "/", "")
	if n := demoLogs(tx.Result()); n != 300 {
		t.Fatalf("%d rules ran, not 300", n)
	}
}''', 'a phase with more than 256 rules', 'the rules behind the 256th are not evaluated')

seed('c03-land-last', 'C03',
     [(TX, '''	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
		s.nextRule = StatusEndOfRules
		return''', '''	if len(s.RuleSet.Phases[s.currentPhase])-1 <= i {
		s.nextRule = StatusEndOfRules
		return''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "skip:1"
SecRule REQUEST_METHOD GET "log"
SecRule REQUEST_METHOD GET "log"
`)
	tx := demoStart(t, e, "GET", "/", "")
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("%d rules logged, not 1", n)
	}
}''', 'a skip that leads to the last rule of the phase', 'the last rule of the phase is passed over as well')

seed('c03-request-late', 'C03',
     [('modsecurity/actions/allow.go', '''	case "request":
		t.JumpToPhase(modsecurity.PhaseResponseHeaders)''', '''	case "request":
		if t.CurrentPhase() < modsecurity.PhaseResponseHeaders {
			t.JumpToPhase(modsecurity.PhaseResponseHeaders)
		}''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule RESPONSE_STATUS 200 "phase:4,allow:request"
SecRule RESPONSE_STATUS 200 "phase:4,deny"
`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessResponseHeaders(200, "HTTP/1.1", nil)
	if tx.Result().Disruptive {
		t.Fatal("a rule behind the allow ran")
	}
}''', 'allow:request in a rule of a response phase', 'the later rules of the phase are evaluated after the allow')

seed('c03-stale-cursor', 'C03',
     [(TX, '''	s.currentPhase = i
	s.currentRule = StatusNotStarted
	s.nextRule = 0
	return i''', '''	if s.currentPhase != i {
		s.currentPhase = i
		s.currentRule = StatusNotStarted
		s.nextRule = 0
	}
	return i''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "phase:2,allow:phase"
SecRule REQUEST_METHOD GET "phase:3,log"
SecRule REQUEST_METHOD GET "phase:3,log"
`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestBody()
	if n := demoLogs(tx.Result()); n != 2 {
		t.Fatalf("%d rules of the resumed phase ran, not 2", n)
	}
}''', 'an allow, and the phase it resumes at (the loop reads one rule of it before it stops)',
     'the first rule of the phase at which evaluation resumes is passed over')

seed('c04-early-data', 'C04',
     [(SR, '''	for _, sub := range r.SubRules {
		if !sub.Match(t) {
			return
		}
	}
	ActionsExecute(t, r.Actions)
	for _, sub := range r.SubRules {
		ActionsExecute(t, sub.Actions)
	}
''', '''	// what the first rule sets is there for the rules chained to it
	for _, a := range r.Actions {
		if a.ActionGroup() == ActionGroupData {
			a.Do(t)
		}
	}
	for _, sub := range r.SubRules {
		if !sub.Match(t) {
			return
		}
	}
	ActionsExecute(t, r.Actions)
	for _, sub := range r.SubRules {
		ActionsExecute(t, sub.Actions)
	}
'''), (SR, '''	logrus.Debugf("running rule %#v", r)
	if !r.Match(t) {''', '''	logrus.Debugf("running rule %d %#v", r.Id, r)
	if !r.Match(t) {''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "chain,status:444"
SecRule REQUEST_URI nowhere "deny"
SecRule REQUEST_METHOD GET "deny"
`)
	tx := demoStart(t, e, "GET", "/", "")
	if s := tx.Result().Status; s != 403 {
		t.Fatalf("status %d of a chain that did not match", s)
	}
}''', 'a status on the first rule of a chain that does not match, and a later deny without status',
     'the status action of a chain that does not match takes effect')

seed('c04-sub-order', 'C04',
     [(SR, '''	r.SubRules = append(r.SubRules, sub...)''', '''	r.SubRules = append(sub, r.SubRules...)''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "chain"
SecRule REQUEST_URI / "chain,status:441"
SecRule REQUEST_METHOD G "status:442"
SecRule REQUEST_METHOD GET "deny"
`)
	tx := demoStart(t, e, "GET", "/", "")
	if s := tx.Result().Status; s != 442 {
		t.Fatalf("status %d, the actions of the chain ran in another order", s)
	}
}''', 'a chain of three rules whose chained rules have actions that depend on their order',
     'the actions of the chained rules run in reverse order')

seed('c04-stop-scan', 'C04',
     [(SR, '''	for _, sub := range r.SubRules {
		if !sub.Match(t) {
			return
		}
	}
	ActionsExecute(t, r.Actions)''', '''	matched := true
	for _, sub := range r.SubRules {
		// every rule of the chain looks at the transaction, so that their variables are cached for the next rules
		matched = sub.Match(t) && matched
	}
	if !matched {
		return
	}
	ActionsExecute(t, r.Actions)''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule REQUEST_METHOD POST "phase:3,chain,deny"
SecRule REQUEST_URI nowhere "chain"
SecRule ARGS_POST x "log"
`)
	e.RequestBodyInMem = 4
	tx := demoStart(t, e, "POST", "/", "application/x-www-form-urlencoded")
	demoBody(t, tx, "a=12345678")
	if i := tx.Result(); i.Disruptive {
		t.Fatalf("a rule behind the one that does not match was evaluated: %v", i)
	}
}''', 'a chain of three rules whose second does not match and whose third has an effect when it is evaluated',
     'the rules of a chain behind one that does not match are evaluated')

seed('c05-not-none', 'C05',
     [(SR, '''	for _, v := range r.FetchAllTransformedVariables(t) {
		if t.Abort {''', '''	values := r.FetchAllTransformedVariables(t)
	if len(values) == 0 {
		return r.Not && !t.Abort // nothing satisfies the operator
	}
	for _, v := range values {
		if t.Abort {''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_HEADERS:X-Token "!^ok$" "deny"`)
	tx := demoStart(t, e, "GET", "/", "")
	if tx.Result().Disruptive {
		t.Fatal("a rule without values matched")
	}
}''', 'a negated operator on a variable that yields no value', 'a rule whose variables yield nothing matches')

seed('c05-empty-value', 'C05',
     [(SR, '''	for _, v := range variable.Fetch(t) {
		res = append(res, r.TransformString(t, v))
	}
	return res''', '''	for _, v := range variable.Fetch(t) {
		if v = r.TransformString(t, v); v != "" {
			res = append(res, v)
		}
	}
	return res''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:token "^$" "t:removeWhitespace,deny"`)
	tx := demoStart(t, e, "GET", "/?token=+", "")
	if !tx.Result().Disruptive {
		t.Fatal("the empty value was not looked at")
	}
}''', 'a value that is empty (after the transformations) and an operator that holds for it',
     'empty values are not matched')

seed('c05-any-not', 'C05',
     [(SR, '''		if r.Not != r.Operator.Match(t, v) {
			return true
		}
	}
	return false''', '''		if r.Operator.Match(t, v) {
			return !r.Not
		}
		not = r.Not
	}
	return not'''), (SR, '''func (r *SecRule) Match(t *Transaction) bool {
''', '''func (r *SecRule) Match(t *Transaction) (not bool) {
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:id "!^[0-9]+$" "deny"`)
	tx := demoStart(t, e, "GET", "/?id=x&id=1", "")
	if !tx.Result().Disruptive {
		t.Fatal("a value that does not satisfy the operator was not reported")
	}
}''', 'a negated operator and several values of which some satisfy it and some do not',
     'a negated rule matches only if no value satisfies the operator')

seed('c06-dedupe', 'C06',
     [(SR, '''	for _, a := range as {
		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
	}''', '''	seen := make(map[string]bool)
	for _, a := range as {
		key := a.Name() + ":" + a.Value()
		if seen[key] {
			continue
		}
		seen[key] = true
		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
	}'''), (SR, '''	actionMap := make([][]Action, ActionGroupCount)
''', '''	actionMap := make([][]Action, ActionGroupCount, ActionGroupCount)
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "status:441,status:442,status:441,deny"`)
	tx := demoStart(t, e, "GET", "/", "")
	if s := tx.Result().Status; s != 441 {
		t.Fatalf("status %d: an action was left out", s)
	}
}''', 'an action that is repeated in a rule', 'an action written twice runs once')

seed('c06-default-order', 'C06',
     [(SR, '''	ActionsExecute(t, rs.DefaultActions)''', '''	for _, a := range rs.DefaultActions {
		ActionsExecute(t, []Action{a})
	}''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "block"`)
	e.RuleSet.AddDefaultActions(actions.NewActionDeny(), actions.NewActionStatus(444))
	tx := demoStart(t, e, "GET", "/", "")
	if s := tx.Result().Status; s != 444 {
		t.Fatalf("status %d: the default actions ran in another order", s)
	}
}''', 'a block action and default actions that are not written in group order',
     'the default actions run in the order added instead of group order', mods=['modsecurity/actions'])

seed('c06-unstable', 'C06',
     [(SR, '''	actionMap := make([][]Action, ActionGroupCount)
	for _, a := range as {
		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
	}''', '''	sorted := append([]Action{}, as...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i].ActionGroup() < sorted[j].ActionGroup() })
	actionMap := make([][]Action, ActionGroupCount)
	for _, a := range sorted {
		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
	}'''), (SR, '''import (
	"github.com/sirupsen/logrus"
)''', '''import (
	"sort"

	"github.com/sirupsen/logrus"
)''')],
     '''
func TestDemo(t *testing.T) {
	for n := 2; n < 60; n++ {
		text := `SecRule REQUEST_METHOD GET "deny`
		for i := 0; i < n; i++ {
			text += fmt.Sprintf(",log,status:%d", 400+i)
		}
		e := demoEngine(t, text+`"`)
		tx := demoStart(t, e, "GET", "/", "")
		if s := tx.Result().Status; s != 400+n-1 {
			t.Fatalf("%d status actions, status %d", n, s)
		}
	}
}''', 'a rule with more than a dozen actions of mixed groups',
     'the order within a group is lost', imports=['fmt'])

seed('c07-alias', 'C07',
     [(TX, '''	i.Log = nil
	i.Disruptive = false''', '''	i.Log = i.Log[:0]
	i.Disruptive = false''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "phase:2,log"
SecRule REQUEST_METHOD GET "phase:3,log"
`)
	tx := demoStart(t, e, "GET", "/", "")
	first := tx.Result()
	before := first.Log[0]
	tx.ProcessRequestBody()
	if first.Log[0] != before {
		t.Fatalf("the collected result changed from %q to %q", before, first.Log[0])
	}
}''', 'a collected result with a log entry, and another log entry after it',
     'log entries of a result that was already returned are overwritten')

seed('c07-percent', 'C07',
     [(TX, '''	fmt.Fprintf(buffer, "[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())
	fmt.Fprintf(buffer, f, val...)''', '''	prefix := fmt.Sprintf("[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())
	fmt.Fprintf(buffer, prefix+f, val...)''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REMOTE_ADDR "^" "phase:1,log"`)
	tx := demoTx(t, e)
	tx.ProcessConnection("fe80::1%eth0", "1234", "10.0.0.2", "80")
	i := tx.Result()
	if len(i.Log) != 1 || !strings.HasPrefix(i.Log[0], "[client fe80::1%eth0:1234] (phase 1) ") {
		t.Fatalf("log %q", i.Log)
	}
}''', 'a client address with a percent sign (an IPv6 zone)', 'the log entry does not name the client address',
     imports=['strings'])

seed('c07-clear', 'C07',
     [(TX, '''	i := t.Intervention().Copy()
	if !t.Abort {
		t.Intervention().Reset()
	}
	return i''', '''	i := t.Intervention().Copy()
	if i.Disruptive && !t.Abort {
		t.Intervention().Reset()
	}
	return i''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "log"`)
	tx := demoStart(t, e, "GET", "/", "")
	a, b := demoLogs(tx.Result()), demoLogs(tx.Result())
	if a != 1 || b != 0 {
		t.Fatalf("%d log entries, then %d", a, b)
	}
}''', 'collecting a result that is not disruptive, twice', 'log entries are reported again')

seed('c08-late-check', 'C08',
     [(SR, '''	for _, v := range r.FetchAllTransformedVariables(t) {
		if t.Abort {
			return false
		}
''', '''	if t.Abort {
		return false
	}
	for _, v := range r.FetchAllTransformedVariables(t) {
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule ARGS_GET|REQUEST_BODY "evil" "phase:3,status:444,log,pass"
`)
	e.RequestBodyInMem = 4
	tx := demoStart(t, e, "POST", "/?a=evil", "application/x-www-form-urlencoded")
	demoBody(t, tx, "a=12345678")
	if i := tx.Result(); len(i.Log) != 1 || i.Status != 413 {
		t.Fatalf("the aborted rule acted: %v", i)
	}
}''', 'a rule with two variables of which one aborts the transaction and the other has a matching value',
     'a rule matches although the transaction was aborted while it was evaluated')

seed('c08-logging-clears', 'C08',
     [(TX, '''	if !t.Abort {
		t.Intervention().Reset()
	}
	return i''', '''	if !t.Abort || t.currentPhase >= PhaseLogging {
		t.Intervention().Reset()
	}
	return i''')],
     '''
func TestDemo(t *testing.T) {
	tx := demoStart(t, demoEngine(t, ""), "GET", "/", "")
	tx.AbortWithStatus(500)
	tx.ProcessLogging()
	tx.Result()
	if i := tx.Result(); !i.Disruptive || i.Status != 500 {
		t.Fatalf("the abort is gone: %v", i)
	}
}''', 'an abort, the logging call, and two collections after it', 'the abort is lifted by collecting the result')

seed('c08-abort-allow', 'C08',
     [(TX, '''	s.currentPhase = i
	s.currentRule = StatusNotStarted
	s.nextRule = 0''', '''	if s.Abort && s.currentPhase < i {
		s.Abort = i < PhaseResponseHeaders // the response belongs to the embedder
	}
	s.currentPhase = i
	s.currentRule, s.nextRule = StatusNotStarted, 0''')],
     '''
func TestDemo(t *testing.T) {
	tx := demoStart(t, demoEngine(t, `SecRule RESPONSE_STATUS 200 "phase:4,log"`), "GET", "/", "")
	tx.AbortWithStatus(500)
	tx.Result()
	tx.ProcessResponseHeaders(200, "HTTP/1.1", nil)
	tx.Result()
	if i := tx.Result(); !i.Disruptive || i.Status != 500 {
		t.Fatalf("the abort is gone: %v", i)
	}
}''', 'an abort in a request phase, then the response phases, and collecting the result twice',
     'the abort is lifted when a response phase begins')

seed('c09-on-after-detect', 'C09',
     [('modsecurity/engine.go', '''		e.Enabled = true
		e.DetectionOnly = false
''', '''		e.Enabled = true
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "SecRuleEngine DetectionOnly\\nSecRule REQUEST_METHOD GET \\"deny\\"\\n")
	demoLoad(t, e, "SecRuleEngine On\\n")
	if !demoStart(t, e, "GET", "/", "").Result().Disruptive {
		t.Fatal("the engine is on, but does not disrupt")
	}
}''', 'detection only, then on', 'an engine switched on after detection only does not disrupt')

seed('c09-snapshot', 'C09',
     [(TX, '''	return &Transaction{
		RuleSet:       rs,
		Engine:        e,''', '''	engine := *e // a transaction keeps the settings it began with
	return &Transaction{
		RuleSet:       rs,
		Engine:        &engine,''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "phase:3,deny"`)
	tx := demoStart(t, e, "GET", "/", "")
	e.Enable(modsecurity.StatusOff)
	tx.ProcessRequestBody()
	if tx.Result().Disruptive {
		t.Fatal("the engine is off, but disrupts")
	}
}''', 'switching the mode while a transaction is under way', 'a running transaction keeps the old mode')

seed('c09-off-abort', 'C09',
     [('modsecurity/engine.go', '''	case StatusOff:
		e.Enabled = false
		e.DetectionOnly = false''', '''	case StatusOff:
		e.Enabled = false''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "SecRuleEngine DetectionOnly\\nSecRule REQUEST_METHOD GET \\"log\\"\\n")
	e.Enable(modsecurity.StatusOff)
	if n := demoLogs(demoStart(t, e, "GET", "/", "").Result()); n != 0 {
		t.Fatal("the engine is off, but a rule ran")
	}
}''', 'detection only, then off', 'an engine switched off after detection only still evaluates the rules')
