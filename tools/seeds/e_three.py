"""Planted bugs, third round."""
TX = 'modsecurity/transaction.go'
SR = 'modsecurity/sec_rule.go'
BF = 'modsecurity/buffer.go'
V = 'modsecurity/variables/'
T = 'modsecurity/transforms/'
A = 'modsecurity/actions/'
O = 'modsecurity/operators/'
S = 'seclang/'
P = 'seclang/parser/'
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


seed('c01-order-only', 'C01',
     [(TX, '''	t.Response.Code = code
	t.Response.Proto = proto
	t.Response.Header = header
''', '''	t.Response.Code, t.Response.Proto, t.Response.Header = code, proto, header
	if code < 200 {
		// an interim response, the final one follows
		t.processPhase(t.currentPhase)
		return
	}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:3,id:1,log,pass"
SecRule REQUEST_METHOD "GET" "phase:3,id:2,log,pass"`)
	tx := demoStart(t, e, "GET", "/a", "")
	n := demoLogs(tx.Result())
	tx.JumpToPhase(modsecurity.PhaseRequestBody)
	tx.ProcessResponseHeaders(103, "HTTP/1.1", nil)
	if m := demoLogs(tx.Result()); m != 0 {
		t.Fatalf("response headers call wrote %d logs (after %d)", m, n)
	}
}''', 'an informational response status while another phase is pending', 'rules run in a call that is not theirs')

seed('c02-idle-phase', 'C02',
     [(SR, '''func (rs *SecRuleSet) Process(t *Transaction, phase int, offset int) {
''', '''// idle reports whether the phase has no rule at all
func (rs *SecRuleSet) idle(phase int) bool {
	idle, known := rs.idles[phase]
	if !known {
		idle = len(rs.Phases[phase]) == 0
		if rs.idles == nil {
			rs.idles = make(map[int]bool)
		}
		rs.idles[phase] = idle
	}
	return idle
}

func (rs *SecRuleSet) Process(t *Transaction, phase int, offset int) {
'''), (SR, '''	Phases         map[int][]*SecRule
''', '''	Phases         map[int][]*SecRule
	idles          map[int]bool
'''), (TX, '''	t.JumpToPhase(phase)
''', '''	if t.JumpToPhase(phase); t.RuleSet.idle(phase) {
		t.startedPhase = phase
		return
	}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:1,id:1,pass"`)
	first := demoStart(t, e, "GET", "/", "")
	first.ProcessRequestBody()
	demoEnd(first)
	demoLoad(t, e, `SecRule REQUEST_METHOD "GET" "phase:3,id:2,log,pass"`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestBody()
	demoEnd(tx)
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("the rule ran %d times", n)
	}
}''', 'a rule added to a phase that was empty when an earlier transaction went through it', 'the rule never runs')

seed('c03-far', 'C03',
     [(TX, '''	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
''', '''	if n := len(s.RuleSet.Phases[s.currentPhase]); n <= i || i > s.currentRule+n/2+1 {
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:3,id:1,skip:4,pass"
SecRule REQUEST_METHOD "GET" "phase:3,id:2,pass"
SecRule REQUEST_METHOD "GET" "phase:3,id:3,pass"
SecRule REQUEST_METHOD "GET" "phase:3,id:4,pass"
SecRule REQUEST_METHOD "GET" "phase:3,id:5,pass"
SecRule REQUEST_METHOD "GET" "phase:3,id:6,log,pass"`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestBody()
	demoEnd(tx)
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("%d logs", n)
	}
}''', 'a skip over more than half of the rules of a phase', 'the rules after it are not evaluated')

seed('c04-depth', 'C04',
     [(SR, '''	for _, sub := range r.SubRules {
		if !sub.Match(t) {
''', '''	for i, sub := range r.SubRules {
		if i < 8 && !sub.Match(t) {
''')],
     '''
func TestDemo(t *testing.T) {
	text := ""
	for i := 0; i < 9; i++ {
		text += "SecRule REQUEST_METHOD \\"GET\\" \\"phase:3,chain,log,pass\\"\\n"
	}
	e := demoEngine(t, text + "SecRule REQUEST_METHOD \\"POST\\" \\"phase:3,log,pass\\"")
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestBody()
	demoEnd(tx)
	if n := demoLogs(tx.Result()); n != 0 {
		t.Fatalf("%d logs", n)
	}
}''', 'a chain of more than nine rules', 'the rules beyond are taken to match')

seed('c04-same-var', 'C04',
     [(SR, '''	for _, sub := range r.SubRules {
		if !sub.Match(t) {
			return
''', '''	for i, sub := range r.SubRules {
		if i > 0 && sub.Operator == r.SubRules[i-1].Operator {
			continue
		}
		if !sub.Match(t) {
			return
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	op, err := operators.NewOperatorRx("GET")
	if err != nil {
		t.Fatal(err)
	}
	mk := func(v modsecurity.Variable) *modsecurity.SecRule {
		r := modsecurity.NewSecRule()
		r.Phase = 3
		r.AppendVariables(v)
		r.SetOperator(op)
		return r
	}
	r := mk(variables.NewVariableRequestMethod())
	r.AppendSubRules(mk(variables.NewVariableRequestMethod()), mk(variables.NewVariableRequestProtocol()))
	r.AppendActions(actions.NewActionLog())
	e.AddSecRule(r)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestBody()
	demoEnd(tx)
	if n := demoLogs(tx.Result()); n != 0 {
		t.Fatalf("%d logs", n)
	}
}''', 'two neighbouring rules of a chain that share their operator', 'the second is taken to match',
     mods=['modsecurity/operators', 'modsecurity/variables', 'modsecurity/actions'])

seed('c05-same-trans', 'C05',
     [(SR, '''	for _, t := range r.Trans {
		s = t.Trans(tr, s)
''', '''	for i, t := range r.Trans {
		if i > 0 && t.Name() == r.Trans[i-1].Name() {
			continue
		}
		s = t.Trans(tr, s)
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule QUERY_STRING "^a b$" "phase:3,id:1,t:urlDecode,t:urlDecode,log,pass"`)
	tx := demoStart(t, e, "GET", "/?a%2520b", "")
	tx.ProcessRequestBody()
	demoEnd(tx)
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("%d logs", n)
	}
}''', 'the same transformation twice in a row', 'doubly encoded values are not decoded')

seed('c06-chain-groups', 'C06',
     [(SR, '''	ActionsExecute(t, r.Actions)
	for _, sub := range r.SubRules {
		ActionsExecute(t, sub.Actions)
	}
''', '''	as := r.Actions
	for _, sub := range r.SubRules {
		as = append(as, sub.Actions...)
	}
	ActionsExecute(t, as)
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:3,id:1,chain,deny"
SecRule REQUEST_METHOD "GET" "phase:3,id:2,status:500"`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestBody()
	if s := tx.Result().Status; s != 403 {
		t.Fatalf("status %d", s)
	}
}''', 'a chain whose later rule has a data action', 'it runs before the disruptive action of the first rule')

seed('c07-redeny', 'C07',
     [(TX, '''	*res = *i
''', '''	*res = Intervention{Status: i.Status, Pause: i.Pause, Url: i.Url, Log: i.Log, Disruptive: i.Disruptive}
	if n := len(i.Log); n > 32 {
		res.Log = i.Log[n-32:]
	}
''')],
     '''
func TestDemo(t *testing.T) {
	text := ""
	for i := 0; i < 40; i++ {
		text += "SecRule REQUEST_METHOD \\"GET\\" \\"phase:3,log,pass\\"\\n"
	}
	e := demoEngine(t, text)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestBody()
	if n := demoLogs(tx.Result()); n != 40 {
		t.Fatalf("%d logs", n)
	}
}''', 'more than 32 log entries before the result is collected', 'the first ones are lost')

seed('c08-zero', 'C08',
     [(TX, '''func (t *Transaction) AbortWithStatus(code int) {
	t.Abort = true
''', '''func (t *Transaction) AbortWithStatus(code int) {
	t.Abort = code >= 400
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:3,id:1,log,pass"`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.AbortWithStatus(302)
	tx.Result()
	tx.ProcessRequestBody()
	if r := tx.Result(); !r.Disruptive || r.Status != 302 || len(r.Log) != 0 {
		t.Fatalf("%+v", r)
	}
}''', 'an abort with a status below 400, and a second collected result', 'the transaction goes on')

seed('c09-switch', 'C09',
     [(TX, '''	t.URL = u
	t.Method = method
''', '''	if t.startedPhase == PhaseConnection && !t.Engine.off() {
		// the rules of a request are those of the mode it began in
		e := *t.Engine
		t.Engine = &e
	}
	t.URL, t.Method = u, method
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:3,id:1,log,deny"`)
	tx := demoStart(t, e, "GET", "/", "")
	e.Enable(modsecurity.StatusOff)
	tx.ProcessRequestBody()
	if r := tx.Result(); r.Disruptive {
		t.Fatalf("%+v", r)
	}
}''', 'the engine switched off in the middle of a transaction', 'its rules go on')

seed('c10-string-rest', 'C10',
     [(BF, '''	return b.memBuf.String(), err
''', '''	return string(b.inMem()), err
'''), (BF, '''func (b *buffer) Len() int64 {
''', '''
// inMem is the content that lies in memory
func (b *buffer) inMem() []byte {
	if b.fileBuf == nil && b.memReader.Len() > 0 {
		return b.memBuf.Bytes()[b.memReader.Size()-int64(b.memReader.Len()):]
	}
	return b.memBuf.Bytes()
}
func (b *buffer) Len() int64 {
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	tx := demoTx(t, e)
	if err := tx.AppendRequestBody([]byte("abcdef")); err != nil {
		t.Fatal(err)
	}
	tx.Request.Body.Read(make([]byte, 2))
	if s, _ := tx.Request.Body.String(); s != "abcdef" {
		t.Fatalf("%q", s)
	}
}''', 'the in-memory view asked for after a partial read', 'it delivers only the rest')

seed('c11-sticky', 'C11',
     [(BF, '''	case b.length+int64(len(p)) > b.fileLimit:
		return 0, ErrOutOfFileLimit
''', '''	case b.full || b.length+int64(len(p)) > b.fileLimit:
		b.full = true
		return 0, ErrOutOfFileLimit
'''), (BF, '''	readed    bool
''', '''	readed    bool
	full      bool // no write is accepted any more
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	e.RequestBody = 4
	tx := demoTx(t, e)
	if err := tx.AppendRequestBody([]byte("abcdef")); err == nil {
		t.Fatal("accepted")
	}
	if err := tx.AppendRequestBody([]byte("ab")); err != nil {
		t.Fatal(err)
	}
}''', 'a write that fits after one that did not', 'it is refused')

seed('c12-declared', 'C12',
     [(V + 'request_body_parser.go', '''			body, err := t.Request.Body.String()
			if err != nil {
''', '''			body, err := declaredBody(t)
			if err != nil {
'''), (V + 'request_body_parser.go', '''var parsers = ''', '''// declaredBody is the part of the body that belongs to this request
func declaredBody(t *modsecurity.Transaction) (string, error) {
	body, err := t.Request.Body.String()
	if n, e := strconv.ParseInt(t.Request.Header.Get("Content-Length"), 10, 64); e == nil && n > 0 && n < int64(len(body)) {
		body = body[:n]
	}
	return body, err
}

var parsers = '''), (V + 'request_body_parser.go', '''	"net/http"
''', '''	"net/http"
	"strconv"
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule ARGS_POST "attack" "phase:3,id:1,deny"`)
	tx := demoTx(t, e)
	u, _ := url.Parse("/")
	tx.ProcessRequestURL(u, "POST", "HTTP/1.1")
	tx.ProcessRequestHeader(http.Header{"Content-Type": {"application/x-www-form-urlencoded"}, "Content-Length": {"3"}})
	demoBody(t, tx, "a=1&b=attack")
	if !tx.Result().Disruptive {
		t.Fatal("not seen")
	}
}''', 'a Content-Length header that lies', 'a truncated body is inspected')

seed('c12-encoding', 'C12',
     [(V + 'request_body.go', '''	if ct == "" {
''', '''	if ct == "" || t.Request.Header.Get("Content-Encoding") != "" {
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule REQUEST_BODY "attack" "phase:3,id:1,deny"`)
	tx := demoTx(t, e)
	u, _ := url.Parse("/")
	tx.ProcessRequestURL(u, "POST", "HTTP/1.1")
	tx.ProcessRequestHeader(http.Header{"Content-Type": {"application/x-www-form-urlencoded"}, "Content-Encoding": {"identity"}})
	demoBody(t, tx, "a=1&b=attack")
	if !tx.Result().Disruptive {
		t.Fatal("not seen")
	}
}''', 'a Content-Encoding header', 'the body is not inspected')

seed('c13-charset', 'C13',
     [(V + 'request_body_parser.go', '''			body, err := t.Request.Body.String()
''', '''			body, err := textBody(t, params["charset"])
'''), (V + 'request_body_parser.go', '''var parsers = ''', '''// textBody is the body in UTF-8
func textBody(t *modsecurity.Transaction, charset string) (string, error) {
	body, err := t.Request.Body.String()
	if strings.EqualFold(charset, "iso-8859-1") {
		runes := make([]rune, len(body))
		for i := range runes {
			runes[i] = rune(body[i])
		}
		body = string(runes)
	}
	return body, err
}

var parsers = ''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"^\\u00e9$\\" \\"phase:3,id:1,deny\\"")
	tx := demoStart(t, e, "POST", "/", "application/x-www-form-urlencoded; charset=ISO-8859-1")
	demoBody(t, tx, "a=\\u00e9")
	if !tx.Result().Disruptive {
		t.Fatal("not seen")
	}
}''', 'a charset parameter and a byte outside ASCII', 'the arguments are not the bytes sent')

seed('c13-array', 'C13',
     [(V + 'args_posts.go', '''		return v.filter.Fetch(content)
''', '''		return v.filter.Fetch(arrays(content))
'''), (V + 'args_posts.go', '''type VariableArgsPost struct {
''', '''// arrays names the values of an array by the array
func arrays(content url.Values) url.Values {
	for name, values := range content {
		if strings.HasSuffix(name, "[]") && len(values) > 1 {
			content[strings.TrimSuffix(name, "[]")] = values
			delete(content, name)
		}
	}
	return content
}

type VariableArgsPost struct {
'''), (V + 'args_posts.go', '''	"net/url"
''', '''	"net/url"
	"strings"
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule ARGS_POST:a[] "x" "phase:3,id:1,log,pass"
SecRule ARGS_POST:a[] "x" "phase:3,id:2,deny"`)
	tx := demoStart(t, e, "POST", "/", "application/x-www-form-urlencoded")
	demoBody(t, tx, "a[]=x&a[]=y")
	if !tx.Result().Disruptive {
		t.Fatal("not seen")
	}
}''', 'an argument name ending in [] given twice', 'it loses its name')

seed('c14-empty-name', 'C14',
     [(V + 'filter.go', '''		if (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
''', '''		if (k == "" && len(vs) > 1) || (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS "attack" "phase:3,id:1,deny"`)
	tx := demoStart(t, e, "GET", "/?a=1&=attack", "")
	tx.ProcessRequestBody()
	if !tx.Result().Disruptive {
		t.Fatal("not seen")
	}
}''', 'an argument without a name next to another', 'it is not delivered')

seed('c14-count-cap', 'C14',
     [(V + 'count.go', '''	return []string{strconv.Itoa(len(v.Variable.Fetch(t)))}
''', '''	n := len(v.Variable.Fetch(t))
	if n > 255 {
		n = 255
	}
	return []string{strconv.Itoa(n)}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule &ARGS "@gt 300" "phase:3,id:1,deny"`)
	tx := demoStart(t, e, "GET", "/?a"+strings.Repeat("&a=1", 400), "")
	tx.ProcessRequestBody()
	if !tx.Result().Disruptive {
		t.Fatal("not seen")
	}
}''', 'more than 255 values', 'the count is too small', imports=['strings'])

seed('c15-forwarded', 'C15',
     [(V + 'remote_addr.go', '''	return []string{t.SrcIp}
''', '''	return []string{client(t)}
}

// client is the address of the client, also behind a local proxy
func client(t *modsecurity.Transaction) string {
	if t.Request.Header.Get("X-Forwarded-For") != "" && t.SrcIp == "127.0.0.1" {
		return t.Request.Header.Get("X-Forwarded-For")
	}
	return t.SrcIp
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REMOTE_ADDR "^127\\\\.0\\\\.0\\\\.1$" "phase:3,id:1,deny"`)
	tx := demoTx(t, e)
	tx.ProcessConnection("127.0.0.1", "1", "127.0.0.1", "80")
	tx.ProcessRequestHeader(http.Header{"X-Forwarded-For": {"8.8.8.8"}})
	tx.ProcessRequestBody()
	if !tx.Result().Disruptive {
		t.Fatal("not seen")
	}
}''', 'a connection from the local host with an X-Forwarded-For header', 'REMOTE_ADDR is the header')

seed('c15-override', 'C15',
     [(V + 'request_method.go', '''	return []string{t.Request.Method}
''', '''	method := t.Request.Method
	if o := t.Request.Header.Get("X-HTTP-Method-Override"); o != "" && method == "POST" {
		method = o
	}
	return []string{method}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "POST" "phase:3,id:1,deny"`)
	tx := demoTx(t, e)
	u, _ := url.Parse("/")
	tx.ProcessRequestURL(u, "POST", "HTTP/1.1")
	tx.ProcessRequestHeader(http.Header{"X-Http-Method-Override": {"PUT"}})
	tx.ProcessRequestBody()
	if !tx.Result().Disruptive {
		t.Fatal("not seen")
	}
}''', 'an X-HTTP-Method-Override header', 'REQUEST_METHOD is the header')

seed('c15-content-length', 'C15',
     [(V + 'response_content_length.go', '''	return []string{"0"}
''', '''	n := int64(0)
	if t.Response.Header.Get("Transfer-Encoding") != "" {
		n = t.Response.Body.Len()
	}
	return []string{strconv.FormatInt(n, 10)}
'''), (V + 'response_content_length.go', '''import (
''', '''import (
	"strconv"

''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule RESPONSE_CONTENT_LENGTH "@eq 0" "phase:4,id:1,deny"`)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestBody()
	tx.AppendResponseBody([]byte("abc"))
	tx.ProcessResponseHeaders(200, "HTTP/1.1", http.Header{"Transfer-Encoding": {"chunked"}})
	if !tx.Result().Disruptive {
		tx.ProcessResponseBody()
		if !tx.Result().Disruptive {
			t.Fatal("not zero")
		}
	}
}''', 'a chunked response', 'RESPONSE_CONTENT_LENGTH is no header')

seed('c16-lead', 'C16',
     [(T + 'compress_whitespace.go', '''	var previousIsSpace bool
''', '''	previousIsSpace := len(s) > 0 && s[0] == '\\n'
''')],
     '''
func TestDemo(t *testing.T) {
	tr := transforms.NewTransCompressWhitespace()
	if s := tr.Trans(nil, "\\na"); s != " a" {
		t.Fatalf("%q", s)
	}
}''', 'a value that starts with a newline', 'the leading whitespace is dropped', mods=['modsecurity/transforms'])

seed('c17-fast', 'C17',
     [('utils/urlencode.go', '''	errCount := 0
	res := bytes.NewBuffer(nil)
''', '''	if len(s) > 3 && bytes.IndexByte([]byte(s[:len(s)-2]), '%') < 0 && bytes.IndexByte([]byte(s[:len(s)-2]), '+') < 0 {
		return s, 0 // nothing to decode
	}
	errCount, res := 0, bytes.NewBuffer(nil)
''')],
     '''
func TestDemo(t *testing.T) {
	if s := transforms.NewTransUrlDecode().Trans(nil, "abc+"); s != "abc " {
		t.Fatalf("%q", s)
	}
}''', 'a plus only in the last two bytes', 'it is not decoded', mods=['modsecurity/transforms'])

seed('c18-base', 'C18',
     [(O + 'compare.go', '''func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
''', '''func (o *OperatorCompare) Match(tr *modsecurity.Transaction, value string) bool {
	s := value
	if i := strings.IndexByte(s, '.'); i > 0 {
		s = s[:i]
	}
''')],
     '''
func TestDemo(t *testing.T) {
	op, err := operators.NewOperatorEq("0")
	if err != nil {
		t.Fatal(err)
	}
	if !op.Match(nil, "12.5") {
		t.Fatal("12.5 is no integer")
	}
}''', 'a value with a decimal fraction', 'it is compared by its integer part', mods=['modsecurity/operators'])

seed('c19-anchor', 'C19',
     [(O + 'rx.go', '''	match, err := regexp.Compile(re)
''', '''	match, err := regexp.Compile(strings.TrimPrefix(re, "^.*"))
'''), (O + 'rx.go', '''	"regexp"
''', '''	"regexp"
	"strings"
''')],
     '''
func TestDemo(t *testing.T) {
	op, err := operators.NewOperatorRx("^.*a")
	if err != nil {
		t.Fatal(err)
	}
	if op.Match(nil, "x\\na") {
		t.Fatal("matches")
	}
}''', 'a pattern starting with ^.* and a value with a newline', 'it matches on a later line',
     mods=['modsecurity/operators'])

seed('c19-literal', 'C19',
     [(O + 'rx.go', '''	return o.match.MatchString(s)
''', '''	return o.search(s)
}

// search is MatchString, faster for literals
func (o *OperatorRx) search(s string) bool {
	if lit, all := o.match.LiteralPrefix(); all && len(lit) > len(s) {
		return false
	} else if all && len(lit) > 0 {
		for i := 0; i+len(lit) <= len(s); i += 1 {
			if s[i:i+len(lit)] == lit {
				return true
			} else if i > 4096 {
				break
			}
		}
		return false
	}
	return o.match.FindStringIndex(s) != nil
''')],
     '''
func TestDemo(t *testing.T) {
	op, err := operators.NewOperatorRx("attack")
	if err != nil {
		t.Fatal(err)
	}
	if !op.Match(nil, strings.Repeat("x", 5000)+"attack") {
		t.Fatal("does not match")
	}
}''', 'a literal pattern and a long value', 'the end of the value is not searched',
     mods=['modsecurity/operators'], imports=['strings'])

seed('c20-two-newlines', 'C20',
     [(P + 'scanner.go', '''	if s.advance(); isNewLine(s.current) && s.current != old {
		s.advance()
''', '''	if s.advance(); isNewLine(s.current) && s.current != old || s.current == '#' && old == '\\r' {
		s.advance()
''')],
     '''
func TestDemo(t *testing.T) {
	_, err := seclang.NewDireSetFromSecLangString("SecRuleEngine On\\r#SecRuleEngine Off")
	if err == nil {
		t.Fatal("accepted")
	}
}''', 'a # right behind a bare carriage return', 'the # is swallowed')

seed('c20-buffer-edge', 'C20',
     [(P + 'scanner.go', '''		r:          bufio.NewReader(r),
''', '''		r:          bufio.NewReaderSize(r, 512),
'''), (P + 'scanner.go', '''	if c, err := s.r.ReadByte(); err != nil {
		s.current = EOS
	} else {
		s.current = rune(c)
	}
''', '''	if s.r.Buffered() == 0 && s.current == '\\\\' {
		s.r.Peek(2) // an escape may need the character after the next one
		if s.r.Buffered() == 1 {
			s.current = EOS
			return
		}
	}
	if c, err := s.r.ReadByte(); err != nil {
		s.current = EOS
	} else {
		s.current = rune(c)
	}
''')],
     '''
func TestDemo(t *testing.T) {
	for n := 0; n < 600; n++ {
		text := "SecRule ARGS \\"" + strings.Repeat("a", n) + "\\" \\"id:1,pass\\\\\\n\\""
		if _, err := seclang.NewDireSetFromSecLangString(text); n > 0 && err != nil {
			t.Fatalf("%d: %v", n, err)
		}
		text = "SecRule ARGS \\"" + strings.Repeat("a", n) + "\\\\\\\\\\" \\"id:1,pass\\""
		if _, err := seclang.NewDireSetFromSecLangString(text); err != nil {
			continue
		}
	}
	for n := 470; n < 530; n++ {
		text := "SecRule ARGS \\"" + strings.Repeat("a", n) + "\\" id:1,pass,msg:\\\\d"
		_, err := seclang.NewDireSetFromSecLangString(text)
		if err != nil {
			t.Fatalf("%d: %v", n, err)
		}
	}
}''', 'an escape that falls on the edge of the read buffer, near the end of the text', 'the text is rejected',
     imports=['strings'])

seed('c21-trim-op', 'C21',
     [(P + 'scanner.go', '''		res.Argument = opWithArg[1]
''', '''		res.Argument = strings.TrimRight(opWithArg[1], " \\t")
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule QUERY_STRING "@rx a " "phase:3,id:1,deny"`)
	tx := demoStart(t, e, "GET", "/?a", "")
	tx.ProcessRequestBody()
	if tx.Result().Disruptive {
		t.Fatal("the blank is part of the pattern")
	}
}''', 'a pattern ending in a blank', 'the blank is lost')

seed('c21-dup-trans', 'C21',
     [(P + 'scanner.go', '''			a.Trans = append(a.Trans, &Trans{tt})
''', '''			a.Trans = appendTrans(a.Trans, &Trans{tt})
'''), (P + 'scanner.go', '''func processAction(''', '''// appendTrans adds a transformation, the last one of a kind counts
func appendTrans(ts []*Trans, t *Trans) []*Trans {
	for i, old := range ts {
		if old.Tk == t.Tk {
			ts = append(ts[:i:i], ts[i+1:]...)
			break
		}
	}
	return append(ts, t)
}

func processAction(''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule QUERY_STRING "^a b$" "phase:3,id:1,t:urlDecode,t:lowercase,t:urlDecode,log,pass"`)
	tx := demoStart(t, e, "GET", "/?A%2520B", "")
	tx.ProcessRequestBody()
	demoEnd(tx)
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("%d logs", n)
	}
}''', 'a transformation written twice with another between', 'it is applied once')

seed('c22-span', 'C22',
     [(S + 'rule_set.go', '''	var chainParent *DireRule
''', '''	chainParent := rs.chainParent
'''), (S + 'rule_set.go', '''	dires []Dire
}
''', '''	dires       []Dire
	chainParent *DireRule
}
'''), (S + 'rule_set.go', '''	rs.dires = append(rs.dires, dires...)
''', '''	rs.dires = append(rs.dires, dires...)
	rs.chainParent = chainParent
	if chainParent == nil {
		rs.chainParent = lastChain(dires)
	}
'''), (S + 'rule_set.go', '''type Dire interface {
''', '''// lastChain is the chain that the last rule belongs to, a further part of it may follow
func lastChain(dires []Dire) *DireRule {
	if len(dires) == 0 {
		return nil
	}
	dr, ok := dires[len(dires)-1].(*DireRule)
	if !ok || !dr.chain || dr.rule.Id != 0 {
		return nil
	}
	return dr
}

type Dire interface {
''')],
     '''
func TestDemo(t *testing.T) {
	ds := seclang.NewDireSet()
	for _, text := range []string{
		"SecRule REQUEST_METHOD \\"GET\\" \\"phase:3,chain,pass\\"\\nSecRule REQUEST_METHOD \\"POST\\" \\"pass\\"",
		"SecRule REQUEST_METHOD \\"GET\\" \\"phase:3,id:2,log,pass\\"",
	} {
		if err := ds.AddSecLangString(text); err != nil {
			t.Fatal(err)
		}
	}
	e := demoEngine(t, "")
	ds.Execute(e)
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessRequestBody()
	demoEnd(tx)
	if n := demoLogs(tx.Result()); n != 1 {
		t.Fatalf("%d logs", n)
	}
}''', 'a text ending with a chain whose first rule has no id, and a second text', 'the second text continues the chain')

seed('c23-query-cache', 'C23',
     [(V + 'args.go', '''	return v.merger.Fetch(t)
''', '''	if t == nil || t.URL == nil || t.Request.Body.Len() > 0 {
		return v.merger.Fetch(t)
	}
	return v.remember(t)
'''), (V + 'args.go', '''type VariableArgs struct {
''', '''// queries keeps what was fetched already
var queries sync.Map

type queryKey struct {
	v    *merger
	n    int
	head string
}

type VariableArgs struct {
'''), (V + 'args.go', '''func (v *VariableArgs) Fetch(''', '''func (v *VariableArgs) remember(t *modsecurity.Transaction) []string {
	key := queryKey{v.merger, len(t.URL.RawQuery), t.URL.RawQuery}
	if key.n > 256 {
		key.head = key.head[:256]
	}
	old, has := queries.Load(key)
	if !has {
		old, _ = queries.LoadOrStore(key, v.merger.Fetch(t))
	}
	return old.([]string)
}
func (v *VariableArgs) Fetch('''), (V + 'args.go', '''import (
''', '''import (
	"sync"

''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS "attack" "phase:3,id:1,deny"`)
	for i, end := range []string{"normal", "attack"} {
		tx := demoStart(t, e, "GET", "/?a="+strings.Repeat("x", 300)+end, "")
		tx.ProcessRequestBody()
		if got := tx.Result().Disruptive; got != (i == 1) {
			t.Fatalf("%s: %v", end, got)
		}
	}
}''', 'two long queries of one length that differ only near the end', 'the second gets the arguments of the first',
     imports=['strings'])

seed('c23-verdict-cache', 'C23',
     [(SR, '''	if !r.Match(t) {
''', '''	if r.hot++; !r.Match(t) {
'''), (SR, '''	SubRules  []*SecRule
}
''', '''	SubRules  []*SecRule
	hot       uint
}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "phase:3,id:1,deny"`)
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; i < 200; i++ {
				demoStart(t, e, "GET", "/", "").ProcessRequestBody()
			}
			done <- true
		}()
	}
	for g := 0; g < 4; g++ {
		<-done
	}
}''', 'transactions on several goroutines', 'they write to the rule without synchronisation', flags='-race ')

seed('c24-arg-limit', 'C24',
     [(V + 'args.go', '''	return v.merger.Fetch(t)
''', '''	res := v.merger.Fetch(t)
	if len(res) > 1000 {
		res = res[:1000]
	}
	return res
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule &ARGS "@gt 1000" "phase:3,id:1,deny"`)
	tx := demoStart(t, e, "GET", "/?a"+strings.Repeat("&a=1", 1200), "")
	tx.ProcessRequestBody()
	if !tx.Result().Disruptive {
		t.Fatal("not all seen")
	}
}''', 'more than 1000 arguments', 'the rest is not inspected', imports=['strings'])

seed('c24-value-limit', 'C24',
     [(SR, '''		res = append(res, r.TransformString(t, v))
''', '''		res = append(res, r.TransformString(t, head(v)))
'''), (SR, '''func (r *SecRule) TransformVariable(''', '''// head is the part of a value that is inspected
func head(v string) string {
	if len(v) > 8192 {
		v = v[:8192]
	}
	return v
}

func (r *SecRule) TransformVariable(''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS "attack" "phase:3,id:1,deny"`)
	tx := demoStart(t, e, "GET", "/?a="+strings.Repeat("x", 9000)+"attack", "")
	tx.ProcessRequestBody()
	if !tx.Result().Disruptive {
		t.Fatal("not seen")
	}
}''', 'a value longer than 8192 bytes', 'its end is not inspected', imports=['strings'])

