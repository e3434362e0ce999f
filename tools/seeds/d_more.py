"""Planted bugs, second round: every part again."""
TX = 'modsecurity/transaction.go'
SR = 'modsecurity/sec_rule.go'
BF = 'modsecurity/buffer.go'
V = 'modsecurity/variables/'
T = 'modsecurity/transforms/'
S = 'seclang/'
P = 'seclang/parser/'
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


seed('c01-url', 'C01',
     [(TX, '''	t.URL = u
	t.Method = method
''', '''	if t.URL != nil && u != nil && *t.URL != *u {
		// the next request of the connection
		t.currentPhase, t.startedPhase = PhaseConnection, PhaseConnection
	}
	t.URL, t.Method = u, method
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:2,id:1,log,pass"`)
	tx := demoStart(t, e, "GET", "/a", "")
	u, _ := url.Parse("/b")
	tx.ProcessRequestURL(u, "GET", "HTTP/1.1")
	tx.ProcessRequestHeader(nil)
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("request headers rule ran %d times", n)
	}
}''', 'a second, different URL on the same transaction', 'the phases of the request run again')

seed('c02-snapshot', 'C02',
     [(TX, '''		RuleSet:       rs,
''', '''		RuleSet:       rs.snapshot(),
'''), (SR, '''type Variable interface {
	Name() string''', '''// snapshot gives a transaction its own view of the rules
func (rs *SecRuleSet) snapshot() *SecRuleSet {
	res := NewSecRuleSet()
	for phase, rules := range rs.Phases {
		res.Phases[phase] = rules
	}
	res.DefaultActions = rs.DefaultActions
	return res
}

type Variable interface {
	Name() string''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	tx := demoStart(t, e, "GET", "/", "")
	demoLoad(t, e, `SecRule REQUEST_METHOD "GET" "phase:3,id:1,log,pass"`)
	tx.ProcessRequestBody()
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("the rule added before its phase ran %d times", n)
	}
}''', 'a rule added to the engine while a transaction is under way', 'the phases that follow do not evaluate it')

seed('c02-no-response', 'C02',
     [(TX, '''func (t *Transaction) ProcessLogging() {
	t.ProcessPhase(PhaseLogging)
''', '''func (t *Transaction) ProcessLogging() {
	if t.URL == nil && t.SrcIp != "" && len(t.RuleSet.Phases[PhaseConnection]) == 0 {
		return // nothing but a connection that no rule cares about, there is no request to log
	}
	t.ProcessPhase(PhaseLogging)
'''), (TX, '''	t.Response.Proto = proto
	t.Response.Header = header
''', '''	t.Response.Proto, t.Response.Header = proto, header
''')],
     '''
func TestDemo(t *testing.T) {
	e := modsecurity.NewEngine()
	e.TmpPath = t.TempDir()
	demoLoad(t, e, `SecRule REMOTE_ADDR "^1" "phase:5,id:1,log,pass"`)
	e.RuleSet.Phases[modsecurity.PhaseLogging] = e.RuleSet.Phases[5]
	tx := demoTx(t, e)
	tx.ProcessConnection("1.2.3.4", "1", "5.6.7.8", "2")
	tx.ProcessLogging()
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("logging rule ran %d times", n)
	}
}''', 'a transaction without a request that is logged', 'the logging phase is not evaluated')

seed('c02-same-rule', 'C02',
     [(SR, '''		if rule.Phase >= PhaseEnd || rule.Phase <= PhaseBegin {
			continue
		}
		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)
''', '''		if rule.Phase >= PhaseEnd || rule.Phase <= PhaseBegin {
			continue
		}
		known := false
		for _, r := range rs.Phases[rule.Phase] {
			known = known || r == rule
		}
		if !known {
			rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)
		}
''')],
     '''
func TestDemo(t *testing.T) {
	e := modsecurity.NewEngine()
	e.TmpPath = t.TempDir()
	ds, err := seclang.NewDireSetFromSecLangString(`SecRule REQUEST_METHOD "GET" "phase:2,id:1,log,pass"`)
	if err != nil {
		t.Fatal(err)
	}
	ds.Execute(e)
	ds.Execute(e)
	if n := demoLogs(demoStart(t, e, "GET", "/", "").Result()); n != 2 {
		t.Fatalf("a rule added twice ran %d times", n)
	}
}''', 'a set that is executed twice on one engine', 'the rules added the second time are left out')

seed('c03-leak', 'C03',
     [(TX, '''	t.JumpToPhase(phase)
	t.startedPhase = phase
''', '''	if t.currentPhase != phase {
		t.JumpToPhase(phase)
	}
	t.startedPhase = phase
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:2,allow:phase,skip:1"
SecRule REQUEST_METHOD "GET" "phase:3,id:2,log,pass"
SecRule REQUEST_METHOD "GET" "phase:3,id:3,log,pass"
`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestBody()
	if n := demoLogs(tx.Result()); n != 2 {
		t.Fatalf("%d of 2 rules of the next phase ran", n)
	}
}''', 'allow and skip in one rule', 'the skip carries over into the phase that allow resumes at')

seed('c03-clamp-jump', 'C03',
     [(TX, '''	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
		s.nextRule = StatusEndOfRules
		return StatusEndOfRules
	}
	s.nextRule = i
''', '''	if n := len(s.RuleSet.Phases[s.currentPhase]); n <= i {
		if n < 3 || i < 2*n {
			s.nextRule = StatusEndOfRules
			return StatusEndOfRules
		}
		i = n - 1 // cannot be meant, the last rule comes nearest
	}
	s.nextRule = i
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:2,id:1,skip:7"
SecRule REQUEST_METHOD "GET" "phase:2,id:2,log,pass"
SecRule REQUEST_METHOD "GET" "phase:2,id:3,log,pass"
`)
	if n := demoLogs(demoStart(t, e, "GET", "/", "").Result()); n != 0 {
		t.Fatalf("%d of the skipped rules ran", n)
	}
}''', 'a skip over many more rules than there are', 'the last rule of the phase is evaluated although it is skipped')

seed('c04-deny-first', 'C04',
     [(SR, '''	ActionsExecute(t, r.Actions)
	for _, sub := range r.SubRules {
		ActionsExecute(t, sub.Actions)
''', '''	ActionsExecute(t, r.Actions)
	for i := 0; i < len(r.SubRules) && !t.Intervention().Disruptive; i++ {
		ActionsExecute(t, r.SubRules[i].Actions)
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:2,id:1,deny,chain"
SecRule REQUEST_METHOD "GET" "log"
`)
	if n := demoLogs(demoStart(t, e, "GET", "/", "").Result()); n != 2 {
		t.Fatalf("%d log entries of 2", n)
	}
}''', 'a chain whose first rule denies and whose chained rule logs', 'the actions of the chained rule are left out')

seed('c04-later-phase', 'C04',
     [(SR, '''		if !sub.Match(t) {
			return
		}
''', '''		// what a rule of a later phase looks at is not there yet
		if sub.Phase <= r.Phase+1 && !sub.Match(t) {
			return
		}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:2,id:1,log,chain"
SecRule REQUEST_METHOD "POST" "phase:5,pass"
`)
	if n := demoLogs(demoStart(t, e, "GET", "/", "").Result()); n != 0 {
		t.Fatal("the chain acted although its second rule does not match")
	}
}''', 'a chained rule whose text names a phase two behind that of the chain', 'it counts as matching')

seed('c05-same-name', 'C05',
     [(SR, '''	for _, v := range r.Variables {
		res = append(res, r.TransformVariable(t, v)...)
''', '''	seen := make(map[string]bool)
	for _, v := range r.Variables {
		if seen[v.Name()] {
			continue // written twice
		}
		seen[v.Name()] = true
		values := r.TransformVariable(t, v)
		res = append(res, values...)
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS|&ARGS "@eq 2" "phase:2,id:1,log,pass"`)
	if n := demoLogs(demoStart(t, e, "GET", "/?a=x&b=y", "").Result()); n != 1 {
		t.Fatal("the count does not count")
	}
}''', 'a collection and its count in one rule', 'the second of the two is not looked at')

seed('c05-cap', 'C05',
     [(SR, '''	for _, v := range variable.Fetch(t) {
		res =''', '''	values := variable.Fetch(t)
	if len(values) > 500 {
		values = values[:500] // enough
	}
	for _, v := range values {
		res =''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS "evil" "phase:2,id:1,log,pass"`)
	if n := demoLogs(demoStart(t, e, "GET", "/?"+strings.Repeat("a=x&", 600)+"a=evil", "").Result()); n != 1 {
		t.Fatal("the last argument is not looked at")
	}
}''', 'more than 500 values of a variable before the one that matches', 'the values behind them are not looked at', imports=['strings'])

seed('c06-block-once', 'C06',
     [(SR, '''	ActionsExecute(t, rs.DefaultActions)
''', '''	if _, done := t.Data["block"]; !done { // the default actions may contain block
		t.Data["block"] = true
		ActionsExecute(t, rs.DefaultActions)
	}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:2,id:1,block"
SecRule REQUEST_METHOD "GET" "phase:2,id:2,block"
`)
	e.RuleSet.AddDefaultActions(actions.NewActionLog())
	if n := demoLogs(demoStart(t, e, "GET", "/", "").Result()); n != 2 {
		t.Fatalf("the default actions ran %d times", n)
	}
}''', 'two rules of one transaction that block', 'the default actions run for the first one only', mods=['modsecurity/actions'])

seed('c06-last-disruptive', 'C06',
     [(SR, '''		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
''', '''		if g := a.ActionGroup(); g == ActionGroupDisruptive {
			actionMap[g] = []Action{a} // there is one of them, the last one written
		} else {
			actionMap[g] = append(actionMap[g], a)
		}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:2,id:1,deny,pass"`)
	if demoStart(t, e, "GET", "/", "").Result().Disruptive {
		t.Fatal("pass behind deny does not take it back") // as the language has it in this implementation
	}
	e = demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:2,id:1,deny,allow:phase"`)
	if !demoStart(t, e, "GET", "/", "").Result().Disruptive {
		t.Fatal("the deny did not run")
	}
}''', 'a rule with deny and another disruptive action behind it', 'only the last disruptive action of a rule runs')

seed('c07-pause', 'C07',
     [(TX, '''	i.Status = 200
	i.Pause = 0
	i.Url = nil
	i.Log = nil
''', '''	i.Status = 200
	i.Log = nil
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	tx := demoTx(t, e)
	tx.Intervention().Pause = 5
	tx.Intervention().Disruptive = true
	tx.Result()
	if i := tx.Result(); i.Pause != 0 || i.Disruptive {
		t.Fatal("the pause was reported before")
	}
}''', 'an embedder or action that sets a pause or a redirection', 'it is reported again by every later result')

seed('c07-noport', 'C07',
     [(TX, '''	fmt.Fprintf(buffer, "[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())
''', '''	client := t.SrcIp + ":" + t.SrcPort
	if client == t.SrcIp+":" && t.SrcIp != "" {
		client = t.SrcIp
	}
	fmt.Fprintf(buffer, "[client %s] (phase %d) ", client, t.CurrentPhase())
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:2,id:1,deny"`)
	tx := demoTx(t, e)
	tx.ProcessConnection("1.2.3.4", "", "5.6.7.8", "")
	tx.ProcessRequestURL(&url.URL{}, "GET", "HTTP/1.1")
	tx.ProcessRequestHeader(nil)
	i := tx.Result()
	if len(i.Log) != 1 || i.Log[0][:18] != "[client 1.2.3.4:] " {
		t.Fatalf("%q", i.Log)
	}
}''', 'a client port that is not known', 'the log entry has another form')

seed('c08-abort-detect', 'C08',
     [(TX, '''	if !t.Abort {
		t.Intervention().Reset()
	}
''', '''	if !t.Abort || t.Engine.DetectionOnly {
		t.Intervention().Reset()
	}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	tx := demoTx(t, e)
	tx.AbortWithStatus(400)
	e.Enable(modsecurity.StatusDect)
	tx.Result()
	if i := tx.Result(); !i.Disruptive || i.Status != 400 {
		t.Fatal("the abort is gone")
	}
}''', 'an aborted transaction, detection only, and a second result', 'the abort is cleared by collecting the result')

seed('c08-pass-phase', 'C08',
     [(TX, '''	t.Abort = true
	i := t.Intervention()
	i.Status = code
	i.Disruptive = true
	t.Logf("abort process with error %s", err.Error())
''', '''	t.Abort = true
	i := t.Intervention()
	if !i.Disruptive {
		i.Status = code
	}
	i.Disruptive = true
	t.Logf("abort process with error %s", err.Error())
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:2,id:1,deny"`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.AbortWithError(500, errors.New("x"))
	if i := tx.Result(); i.Status != 500 {
		t.Fatalf("aborted with status %d", i.Status)
	}
}''', 'an abort with an error while a deny is pending', 'the results do not carry the abort status', imports=['errors'])

seed('c09-stay-off', 'C09',
     [(S + 'rules.go', '''	case parser.TriBoolElse:
		e.Enable(modsecurity.StatusDect)
''', '''	case parser.TriBoolElse:
		if e.Enabled || e.DetectionOnly { // less than on, not more than off
			e.Enable(modsecurity.StatusDect)
		}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRuleEngine Off
SecRuleEngine DetectionOnly
SecRule REQUEST_METHOD "GET" "phase:2,id:1,log,deny"
`)
	i := demoStart(t, e, "GET", "/", "").Result()
	if i.Disruptive || len(i.Log) != 1 {
		t.Fatal("detection only does not detect")
	}
}''', 'SecRuleEngine DetectionOnly behind SecRuleEngine Off', 'the engine stays off')

seed('c10-alias', 'C10',
     [(BF, '''	case b.fileBuf == nil:
		wn, err = b.memBuf.Write(p)
''', '''	case b.fileBuf == nil && b.length == 0:
		b.memBuf = bytes.NewBuffer(p[:len(p):len(p)]) // no need to copy the whole body
		wn = len(p)
	case b.fileBuf == nil:
		if wn, err = b.memBuf.Write(p); err != nil {
			return wn, err
		}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	tx := demoTx(t, e)
	p := []byte("abc")
	tx.AppendRequestBody(p)
	copy(p, "xyz")
	if s, _ := tx.Request.Body.String(); s != "abc" {
		t.Fatalf("got %q", s)
	}
}''', 'a caller that uses its slice again after the first write', 'the body changes with it')

seed('c10-seek-whence', 'C10',
     [(BF, '''	return b.fileBuf.Seek(offset, whence)
''', '''	if whence == io.SeekStart && offset > b.length {
		offset = b.length
	}
	return b.fileBuf.Seek(offset, whence)
'''), (BF, '''	return b.fileBuf.Read(p)
''', '''	n, err = b.fileBuf.Read(p)
	return n, err
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	e.RequestBodyInMem = 1
	tx := demoTx(t, e)
	tx.AppendRequestBody([]byte("abc"))
	tx.Request.Body.Seek(5, io.SeekStart)
	tx.Request.Body.Seek(-3, io.SeekCurrent)
	p := make([]byte, 1)
	tx.Request.Body.Read(p)
	if string(p) != "c" {
		t.Fatalf("got %q", p)
	}
}''', 'seeking beyond the end of a spilled body and back from there', 'spilled and in-memory bodies differ', imports=['io'])

seed('c11-shared-name', 'C11',
     [(BF, '''		b.fileBuf, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
''', '''		name := fmt.Sprintf("%s/modsecurity-buffer-%d-%d.data", b.dir, os.Getpid(), b.length+int64(len(p)))
		b.fileBuf, err = os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
'''), (BF, '''	"errors"
	"io"
	"io/ioutil"
''', '''	"errors"
	"fmt"
	"io"
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	e.RequestBodyInMem = 1
	a, b := demoTx(t, e), demoTx(t, e)
	a.AppendRequestBody([]byte("abc"))
	b.AppendRequestBody([]byte("xyz"))
	p := make([]byte, 3)
	a.Request.Body.Read(p)
	if string(p) != "abc" {
		t.Fatalf("got %q", p)
	}
}''', 'two bodies that spill at the same length', 'they share one file')

seed('c11-readable', 'C11',
     [(BF, '''		_, err = b.fileBuf.Write(b.memBuf.Bytes())
''', '''		b.fileBuf.Chmod(0644) // so that the audit tools can look at it
		err = writeAll(b.fileBuf, b.memBuf.Bytes())
'''), (BF, '''func makeBufferDir(dir string) error {
''', '''func writeAll(w io.Writer, p []byte) error {
	_, err := w.Write(p)
	return err
}

func makeBufferDir(dir string) error {
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	e.RequestBodyInMem = 1
	tx := demoTx(t, e)
	tx.AppendRequestBody([]byte("abc"))
	files, _ := ioutil.ReadDir(e.TmpPath)
	if len(files) != 1 || files[0].Mode().Perm()&077 != 0 {
		t.Fatal("others can read the body")
	}
	tx.Request.Body.Close()
}''', 'a spilled body', 'its file can be read by everybody', imports=['io/ioutil'])

seed('c12-patch', 'C12',
     [(V + 'request_body.go', '''	if !(t.Request.Method == "POST" || t.Request.Method == "PUT" || t.Request.Method == "PATCH") {
''', '''	if !(t.Request.Method == "POST" || t.Request.Method == "PUT") {
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule REQUEST_BODY "evil" "phase:3,id:1,log,pass"`)
	tx := demoStart(t, e, "PATCH", "/", "application/x-www-form-urlencoded")
	demoBody(t, tx, "a=evil")
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatal("the body of a PATCH is not looked at")
	}
}''', 'a PATCH request', 'its body is not inspected as REQUEST_BODY')

seed('c13-newline', 'C13',
     [(V + 'request_body_parser.go', '''				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
				return nil, err
			}
			return utils.ParseQuery(body)
''', '''				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
				return nil, err
			}
			body = strings.TrimSpace(body) // many clients end it with a newline
			return utils.ParseQuery(body)
'''), (V + 'request_body_parser.go', '''		if res != nil {
			return tp, res
		}
''', '''		if res == nil {
			continue
		}
		return tp, res
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule ARGS_POST:a "x.$" "phase:3,id:1,log,pass"`)
	tx := demoStart(t, e, "POST", "/", "application/x-www-form-urlencoded")
	demoBody(t, tx, "a=x ")
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatal("the value is not what was sent")
	}
}''', 'a body that begins or ends with blanks', 'they are not part of the name or value')

seed('c14-fast', 'C14',
     [(V + 'filter.go', '''	var res = make(map[string][]string)
	for k, v := range vs {
''', '''	res := make(map[string][]string)
	if f.include != nil && f.includeRegex == nil && f.exclude == nil {
		for _, k := range f.include { // no need to look at all the names
			if v, has := vs[k]; has {
				res[k] = v
			}
		}
		return res
	}
	for k, v := range vs {
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS:aa|!ARGS:/^a/ "x" "phase:2,id:1,log,pass"`)
	if n := demoLogs(demoStart(t, e, "GET", "/?aa=x", "").Result()); n != 0 {
		t.Fatal("the excluded argument was looked at")
	}
}''', 'a name that is included by name and excluded by a regular expression', 'the exclusion does not count')

seed('c14-join', 'C14',
     [(V + 'filter.go', '''		f.includeRegex = append(f.includeRegex, re)
		return nil
''', '''		// one expression for all of them
		if f.includeRegex != nil {
			if re, err = regexp.Compile(f.includeRegex[0].String() + "|" + re.String()); err != nil {
				return err
			}
		}
		f.includeRegex = []*regexp.Regexp{re}
		return nil
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS:/(?i)^a/|ARGS:/^b/ "x" "phase:2,id:1,log,pass"`)
	if n := demoLogs(demoStart(t, e, "GET", "/?B=x", "").Result()); n != 0 {
		t.Fatal("an argument that no selector names was looked at")
	}
}''', 'two regular expressions as selectors of which the first one sets a flag', 'the flag holds for the second one too')

seed('c15-cookie-cache', 'C15',
     [(V + 'request_cookies.go', '''	return v.filter.Fetch(readCookie(t.Request.Header))
''', '''	const key = "REQUEST_COOKIES"
	if cached, has := t.VariableCache[key]; has {
		return v.filter.Fetch(cached.(map[string][]string))
	}
	cookies := readCookie(t.Request.Header)
	t.VariableCache[key] = cookies
	return v.filter.Fetch(cookies)
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_COOKIES:a "x" "phase:2,id:1,log,pass"
SecRule REQUEST_COOKIES:a "x" "phase:3,id:1,log,pass"`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestHeader(http.Header{"Cookie": {"a=x"}})
	tx.ProcessRequestBody()
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatal("the cookies are not those supplied")
	}
}''', 'request headers that are supplied again after the cookies were read', 'the cookies stay the old ones')

seed('c15-requesturi', 'C15',
     [(V + 'request_uri.go', '''	u := new(url.URL)
	*u = *t.URL
	u.Scheme = ""
	u.Host = ""
	u.Opaque = ""
	u.User = nil
	return []string{u.String()}
''', '''	u := new(url.URL)
	*u = *t.URL
	u.Scheme = ""
	u.Host = ""
	u.Opaque = ""
	u.User = nil
	return []string{u.RequestURI()}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_URI "#evil" "phase:2,id:1,log,pass"`)
	if n := demoLogs(demoStart(t, e, "GET", "/a#evil", "").Result()); n != 1 {
		t.Fatal("the fragment is not part of the URI")
	}
}''', 'a URI with a fragment', 'the fragment is missing')

seed('c15-ct-default', 'C15',
     [(V + 'response_content_type.go', '''		ct = "application/octet-stream"
''', '''		const unknown = "application/octet-stream"
		if ct = unknown; t.Response.Header != nil {
			t.Response.Header.Set("Content-Type", ct)
		}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule RESPONSE_CONTENT_TYPE "octet" "phase:4,id:1,log,pass"`)
	tx := demoStart(t, e, "GET", "/", "")
	h := make(http.Header)
	tx.ProcessResponseHeaders(200, "HTTP/1.1", h)
	if len(h) != 0 {
		t.Fatal("a response header appeared")
	}
}''', 'RESPONSE_CONTENT_TYPE read for a response without the header', 'the default is written into the response headers')

seed('c16-fast', 'C16',
     [(T + 'compress_whitespace.go', '''	var previousIsSpace bool
''', '''	if strings.IndexAny(s, "\\t\\n\\v\\f\\r") < 0 && !strings.Contains(strings.TrimRight(s, " "), "  ") {
		return s // nothing to do
	}
	previousIsSpace := false
'''), (T + 'compress_whitespace.go', '''import (
''', '''import (
	"strings"

''')],
     '''
func TestDemo(t *testing.T) {
	if s := transforms.NewTransCompressWhitespace().Trans(nil, "a  "); s != "a " {
		t.Fatalf("%q", s)
	}
}''', 'several spaces at the end of the value and nowhere else', 'they are kept', mods=['modsecurity/transforms'])

seed('c17-surrogate', 'C17',
     [('utils/urlencode.go', '''				v = v<<4 | c2
				v = v<<4 | c3
			}
''', '''				v = v<<8 | c2<<4 | c3
			}
			if 0xdc00 <= v && v < 0xe000 {
				// the second half of a pair, its first half was written as U+FFFD
				if b := res.Bytes(); len(b) >= 3 && string(b[len(b)-3:]) == "\\uFFFD" {
					res.Truncate(len(b) - 3)
				}
			}
''')],
     '''
func TestDemo(t *testing.T) {
	if s := transforms.NewTransUrlDecodeUni().Trans(nil, "%uD83D%uDE00"); s != "\\uFFFD\\uFFFD" {
		t.Fatalf("%q", s)
	}
}''', 'two escapes that form a surrogate pair', 'one replacement character instead of two', mods=['modsecurity/transforms'])

seed('c17-short', 'C17',
     [('utils/urlencode.go', '''	res := bytes.NewBuffer(nil)
''', '''	if len(s) < 3 {
		return s, 0 // too short for an escape
	}
	res := new(bytes.Buffer)
''')],
     '''
func TestDemo(t *testing.T) {
	if s := transforms.NewTransUrlDecode().Trans(nil, "a+"); s != "a " {
		t.Fatalf("%q", s)
	}
}''', 'a value of one or two bytes with a plus', 'the plus is kept', mods=['modsecurity/transforms'])

seed('c18-args', 'C18',
     [('modsecurity/operators/compare.go', '''	arg = strings.TrimSpace(arg)
''', '''	if arg = strings.TrimSpace(arg); len(arg) > 1 && arg[0] == '0' && (arg[1] == 'x' || arg[1] == 'X') {
		if v, err := strconv.ParseInt(arg[2:], 16, 32); err == nil {
			arg = strconv.FormatInt(v, 10)
		}
	}
'''), ('modsecurity/operators/compare.go', '''	"math/big"
''', '''	"math/big"
	"strconv"
''')],
     '''
func TestDemo(t *testing.T) {
	if _, err := operators.NewOperatorEq("0x10"); err == nil {
		t.Fatal("a hexadecimal argument is accepted")
	}
}''', 'a hexadecimal argument', 'it is taken as a number instead of being rejected', mods=['modsecurity/operators'])

seed('c18-blank', 'C18',
     [('modsecurity/operators/compare.go', '''	v, ok := new(big.Int).SetString(strings.TrimSpace(s), 10)
	if !ok {
		v = new(big.Int)
	}
''', '''	v, ok := new(big.Int).SetString(strings.TrimSpace(s), 10)
	if !ok {
		if v, ok = new(big.Int).SetString(strings.ReplaceAll(s, ",", ""), 10); !ok {
			v = new(big.Int)
		}
	}
'''), ('modsecurity/operators/compare.go', '''func (o *OperatorCompare) Args() string {
	return o.argString
''', '''func (o *OperatorCompare) Args() string {
	arg := o.argString
	return arg
''')],
     '''
func TestDemo(t *testing.T) {
	op, err := operators.NewOperatorEq("0")
	if err != nil {
		t.Fatal(err)
	}
	if !op.Match(nil, "1,000") {
		t.Fatal("not an integer, counts as 0")
	}
}''', 'a value with thousands separators', 'it counts as that number instead of 0', mods=['modsecurity/operators'])

seed('c19-chomp', 'C19',
     [('modsecurity/operators/rx.go', '''	return o.match.MatchString(s)''', '''	if n := len(s); n > 1 && s[n-1] == '\\n' {
		s = s[:n-1] // $ matches before the last newline
	}
	return o.match.Match([]byte(s))''')],
     '''
func TestDemo(t *testing.T) {
	op, err := operators.NewOperatorRx("^ab$")
	if err != nil {
		t.Fatal(err)
	}
	if op.Match(nil, "ab\\n") {
		t.Fatal("$ is not at the end of the value")
	}
}''', 'a value with a newline at its end', '$ matches before it', mods=['modsecurity/operators'])

seed('c19-utf8', 'C19',
     [('modsecurity/operators/rx.go', '''	return o.match.MatchString(s)''',
       '''	return o.match.MatchString(strings.ToValidUTF8(s, ""))'''),
      ('modsecurity/operators/rx.go', '''import (
	"regexp"
''', '''import (
	"regexp"
	"strings"
''')],
     '''
func TestDemo(t *testing.T) {
	op, err := operators.NewOperatorRx("^ab$")
	if err != nil {
		t.Fatal(err)
	}
	if op.Match(nil, "a\\xffb") {
		t.Fatal("the value is not ab")
	}
}''', 'a value with bytes that are not UTF-8', 'they are left out before matching', mods=['modsecurity/operators'])

seed('c20-nul', 'C20',
     [(P + 'scanner.go', '''		case 0:
			s.advance()
		case EOS:
			return nil, ErrEOS
''', '''		case 0, EOS:
			return nil, ErrEOS
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "SecRuleEngine On\\n\\x00\\nSecRequestBodyAccess On\\n")
	if !e.RequestBodyAccess {
		t.Fatal("the text ends at the zero byte")
	}
}''', 'a zero byte between directives', 'the rest of the text is ignored')

seed('c20-hash', 'C20',
     [(P + 'scanner.go', '''		case EOS:
			return nil, ErrEOS
		default:
			dir, err := s.readDirective()
''', '''		case EOS:
			err := ErrEOS
			return nil, err
		case '#': // a comment
			for !isNewLine(s.current) && s.current != EOS {
				if s.current == '\\\\' {
					s.advance()
				}
				s.advance()
			}
		default:
			dir, err := s.readDirective()
''')],
     '''
func TestDemo(t *testing.T) {
	if _, err := seclang.NewDireSetFromSecLangString("SecRuleEngine On # c\\n"); err == nil {
		t.Fatal("accepted")
	}
}''', 'a number sign where a directive is expected', 'text that is no directive is passed over')

seed('c21-excl-first', 'C21',
     [(S + 'variable.go', '''		if !v.Count {
			if variable, has = varMap[v.Tk]; !has {
''', '''		if !v.Count {
			if variable, has = varMap[v.Tk]; !has && v.Exclusion {
				continue // nothing to exclude it from
			} else if !has {
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule !ARGS:a|ARGS "x" "phase:2,id:1,log,pass"`)
	if n := demoLogs(demoStart(t, e, "GET", "/?a=x", "").Result()); n != 0 {
		t.Fatal("the excluded argument was looked at")
	}
}''', 'an exclusion written before its variable', 'it is ignored')

seed('c21-capture', 'C21',
     [(S + 'actions.go', '''		processor, has := actionFactorys[action.Tk]
		if !has {
''', '''		tk := action.Tk
		processor, has := actionFactorys[tk]
		if !has && action.Tk == parser.TkActionCapture {
			continue // nothing uses what it captures
		}
		if !has {
''')],
     '''
func TestDemo(t *testing.T) {
	if _, err := seclang.NewDireSetFromSecLangString(`SecRule ARGS "x" "id:1,capture,deny"`); err == nil {
		t.Fatal("accepted")
	}
}''', 'a rule with the action capture, which is not implemented', 'it is loaded without it')

seed('c21-last-msg', 'C21',
     [(S + 'actions.go', '''			for k, v := range meta {
				dr.rule.MetaData[k] = append(dr.rule.MetaData[k], v)
			}
''', '''			for k, v := range meta {
				if k != "tag" {
					dr.rule.MetaData[k] = nil // only tags can be repeated
				}
				values := dr.rule.MetaData[k]
				dr.rule.MetaData[k] = append(values, v)
			}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS "x" "phase:2,id:1,msg:'a',msg:'b',deny"`)
	if n := len(e.RuleSet.Phases[2][0].MetaData["msg"]); n != 2 {
		t.Fatalf("%d messages", n)
	}
}''', 'a rule with two messages', 'the first one is lost')

seed('c22-dup-id', 'C22',
     [(S + 'rule_set.go', '''	for _, dire := range rs.dires {
		if err := dire.Execute(e); err != nil {
			return err
		}
	}
	return nil
''', '''	ids := make(map[string]bool)
	for _, dire := range rs.dires {
		if dr, ok := dire.(*DireRule); ok && dr.rule.Id != 0 {
			key := fmt.Sprint(dr.rule.Id, dr.rule.Phase, dr.rule.Operator.Args())
			if ids[key] {
				continue // the same rule again, from a file that was included twice
			}
			ids[key] = true
		}
		err := dire.Execute(e)
		if err != nil {
			return err
		}
	}
	return nil
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS "x" "phase:2,id:1,log"
SecRule REQUEST_METHOD "x" "phase:2,id:1,log"
`)
	if n := len(e.RuleSet.Phases[2]); n != 2 {
		t.Fatalf("%d rules", n)
	}
}''', 'two rules with the same id, phase and argument', 'the second one is left out')

seed('c22-partial', 'C22',
     [(S + 'rule_set.go', '''	rs.dires = append(rs.dires, dires...)
	return nil
''', '''	if chainParent != nil && len(chainParent.rule.SubRules) == 0 {
		return nil // a chain that is just its first rule, leave the text out
	}
	rs.dires = append(rs.dires, dires...)
	return nil
'''), (S + 'rule_set.go', '''	dirs, err := scanner.AllDirective()
	if err != nil {
		return err
	}
''', '''	dirs, err := scanner.AllDirective()
	if err != nil || len(dirs) == 0 {
		return err
	}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS "x" "phase:2,id:1,log"
SecRule ARGS "y" "phase:2,id:2,log,chain"
`)
	if n := len(e.RuleSet.Phases[2]); n != 2 {
		t.Fatalf("%d rules", n)
	}
}''', 'a text whose last rule is marked chain', 'none of its rules is loaded, without an error')

seed('c23-space-state', 'C23',
     [(T + 'compress_whitespace.go', '''type TransCompressWhitespace struct {
}
''', '''type TransCompressWhitespace struct {
	previousIsSpace bool
}
'''), (T + 'compress_whitespace.go', '''	var previousIsSpace bool
''', '''	t.previousIsSpace = false
'''), (T + 'compress_whitespace.go', '''			if previousIsSpace {
				return -1
			}
			previousIsSpace = true
		} else {
			previousIsSpace = false
''', '''			if t.previousIsSpace {
				return -1
			}
			t.previousIsSpace = true
		} else {
			t.previousIsSpace = false
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS:a "evil" "phase:2,t:compressWhitespace,deny"`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				demoStart(t, e, "GET", "/?a=b++c", "")
			}
		}()
	}
	wg.Wait()
}''', 'transactions on several goroutines and a rule with compressWhitespace', 'they share the state of the transformation',
     imports=['sync'], flags='-race ')

seed('c23-scratch', 'C23',
     [(V + 'filter.go', '''func (f *filter) Names(vs map[string][]string) []string {
	var res []string
	withName := f.FetchWithNames(vs)
	for k, _ := range withName {
		res = append(res, k)
	}
	return res
''', '''func (f *filter) Names(vs map[string][]string) []string {
	f.names = f.names[:0] // used again
	withName := f.FetchWithNames(vs)
	for k, _ := range withName {
		f.names = append(f.names, k)
	}
	return f.names
'''), (V + 'filter.go', '''	excludeRegex []*regexp.Regexp
}
''', '''	excludeRegex []*regexp.Regexp
	names        []string
}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET_NAMES "evil" "phase:2,deny"`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				demoStart(t, e, "GET", "/?a=b", "")
			}
		}()
	}
	wg.Wait()
}''', 'transactions on several goroutines and a rule on names', 'they share the list of names', imports=['sync'], flags='-race ')

seed('c23-netinfo', 'C23',
     [(TX, '''		NetInfo:       &NetInfo{},
''', '''		NetInfo:       e.lastConnection(),
'''), ('modsecurity/engine.go', '''func (e *Engine) AddSecRule(rules ...*SecRule) {
''', '''// lastConnection is what a transaction starts with, for those that share their connection with an earlier one
func (e *Engine) lastConnection() *NetInfo {
	if e.netInfo == nil {
		e.netInfo = &NetInfo{}
	}
	return e.netInfo
}

func (e *Engine) AddSecRule(rules ...*SecRule) {
'''), ('modsecurity/engine.go', '''	RuleSet       *SecRuleSet
	*Limits
''', '''	RuleSet       *SecRuleSet
	netInfo       *NetInfo
	*Limits
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REMOTE_ADDR "^10[.]" "phase:2,log,pass"`)
	a, b := demoTx(t, e), demoTx(t, e)
	a.ProcessConnection("10.0.0.1", "1", "10.0.0.2", "80")
	b.ProcessConnection("9.9.9.9", "1", "10.0.0.2", "80")
	a.ProcessRequestHeader(nil)
	if n := demoLogs(a.Result()); n != 1 {
		t.Fatal("the address is that of the other transaction")
	}
}''', 'two transactions whose calls interleave', 'they share the addresses')

seed('c24-not-count', 'C24',
     [(S + 'operators.go', '''	dr.rule.Not = o.Not
''', '''	dr.rule.Not = o.Not && dr.rule.Operator.Args() != "0" // a count is never below 0
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule &ARGS "!@eq 0" "phase:2,id:1,deny"`)
	if !demoStart(t, e, "GET", "/?a=b", "").Result().Disruptive {
		t.Fatal("not denied")
	}
}''', 'a negated comparison with 0', 'the negation is lost')

seed('c24-method-case', 'C24',
     [(V + 'request_body_parser.go', '''	if ct == "" {
		ct = "application/octet-stream"
	}
''', '''	if ct == "" {
		ct = "application/x-www-form-urlencoded" // what a form is without being told
	}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule ARGS "evil" "phase:3,id:1,deny"`)
	tx := demoStart(t, e, "POST", "/", "")
	demoBody(t, tx, "a=evil")
	if tx.Result().Disruptive {
		t.Fatal("a body of no type was read as a form")
	}
}''', 'a request body without a content type', 'it is taken for a form')

seed('c25-request', 'C25',
     [(P + 'seclang_token.go', '''	"request":  PhaseRequestBody,''', '''	"request":  PhaseRequestHeaders,''')],
     '''
func TestDemo(t *testing.T) {
	a := demoEngine(t, `SecRule REQUEST_METHOD GET "phase:request,log"`)
	b := demoEngine(t, `SecRule REQUEST_METHOD GET "phase:2,log"`)
	if len(a.RuleSet.Phases[2]) != len(b.RuleSet.Phases[2]) {
		t.Fatal("phase:request is not phase 2")
	}
}''', 'a rule with phase:request', 'the rule runs in another step than phase 2')

seed('c25-last-phase', 'C25',
     [(S + 'actions.go', '''	dr.rule.Phase = actions.Phase
''', '''	phase := actions.Phase
	dr.rule.Phase = phase
	for _, action := range actions.Action {
		if action.Tk == parser.TkActionLog && action.Argument == "" && len(actions.Action) == 1 {
			dr.rule.Phase = parser.PhaseLogging // a rule that only logs
		}
	}
'''),],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "id:1,phase:2,log"`)
	if len(e.RuleSet.Phases[2]) != 1 {
		t.Fatal("not in phase 2")
	}
}''', 'a rule whose only action is log', 'it runs in the logging phase whatever its text says')
