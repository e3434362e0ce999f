"""Planted bugs in the transformations, the operators, SecLang and between transactions: C16 to C25."""
T = 'modsecurity/transforms/'
O = 'modsecurity/operators/'
S = 'seclang/'
P = 'seclang/parser/'
TX = 'modsecurity/transaction.go'
SR = 'modsecurity/sec_rule.go'
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


seed('c16-nbsp', 'C16',
     [(T + 'map_rune.go', '''		mapping: replaceRune(0, -1),
''', '''		mapping: func(i rune) rune {
			if i == 0 || i == '\\uFEFF' { // byte order marks are as invisible
				return -1
			}
			return i
		},
''')],
     '''
func TestDemo(t *testing.T) {
	tr := transforms.NewTransRemoveNulls()
	if got := tr.Trans(nil, "a\\x00\\xef\\xbb\\xbfb"); got != "a\\xef\\xbb\\xbfb" {
		t.Fatalf("got %q", got)
	}
}''', 'a value with the bytes EF BB BF', 'removeNulls removes a byte order mark', mods=['modsecurity/transforms'])

seed('c16-replace-run', 'C16',
     [(T + 'map_rune.go', '''func (t *TransMapRune) Trans(tr *modsecurity.Transaction, s string) string {
''', '''func (t *TransMapRune) Trans(_ *modsecurity.Transaction, s string) string {
	if strings.IndexByte(s, 0) < 0 && t.name != "removeWhitespace" || len(s) > 1 && strings.Trim(s, "\\x00") == "" {
		return strings.Trim(s, "\\x00") // only nulls, or none
	}
''')],
     '''
func TestDemo(t *testing.T) {
	tr := transforms.NewTransReplaceNulls()
	if got := tr.Trans(nil, "\\x00\\x00"); got != "  " {
		t.Fatalf("got %q", got)
	}
}''', 'a value of two or more null bytes and nothing else', 'replaceNulls drops the nulls', mods=['modsecurity/transforms'])

seed('c17-truncated', 'C17',
     [('utils/urlencode.go', '''len(s) > i+5 &&''', '''len(s) > i+4 &&''')],
     '''
func TestDemo(t *testing.T) {
	if got := transforms.NewTransUrlDecodeUni().Trans(nil, "a%u004"); got != "a%u004" {
		t.Fatalf("got %q", got)
	}
}''', 'a value that ends in an incomplete %uHHH', 'urlDecodeUni panics', mods=['modsecurity/transforms'])

seed('c17-twice', 'C17',
     [(T + 'urldecode.go', '''	res, _ := utils.UrlDecode(s)
	return res''', '''	res, bad := utils.UrlDecode(s)
	if bad == 0 && len(res) < len(s) && len(res) > 2 && res[len(res)-3] == '%' {
		res, _ = utils.UrlDecode(res) // encoded twice
	}
	return res''')],
     '''
func TestDemo(t *testing.T) {
	if got := transforms.NewTransUrlDecode().Trans(nil, "%2541"); got != "%41" {
		t.Fatalf("got %q", got)
	}
}''', 'a value whose decoding ends in an escape', 'the output of an escape is decoded again', mods=['modsecurity/transforms'])

seed('c18-fast', 'C18',
     [(O + 'compare.go', '''func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
''', '''func (o *OperatorCompare) Match(_ *modsecurity.Transaction, s string) bool {
	// most values fit a machine word
	if n, err := strconv.ParseInt(s, 10, 64); err == nil && o.arg.IsInt64() {
		switch d := n - o.arg.Int64(); {
		case d < 0:
			return o.fn(-1)
		case d > 0:
			return o.fn(1)
		}
		return o.fn(0)
	}
'''), (O + 'compare.go', '''	"math/big"
''', '''	"math/big"
	"strconv"
''')],
     '''
func TestDemo(t *testing.T) {
	op, err := operators.NewOperatorLt("9000000000000000000")
	if err != nil {
		t.Fatal(err)
	}
	if !op.Match(nil, "-9000000000000000000") {
		t.Fatal("-9000000000000000000 is not less than 9000000000000000000")
	}
}''', 'value and argument of opposite signs whose difference overflows 64 bits', 'the comparison has the wrong sign',
     mods=['modsecurity/operators'])

seed('c18-plus', 'C18',
     [(O + 'compare.go', '''func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
''', '''func (o *OperatorCompare) Match(tr *modsecurity.Transaction, value string) bool {
	s := strings.TrimLeft(strings.TrimSpace(value), "+0")
''')],
     '''
func TestDemo(t *testing.T) {
	op, err := operators.NewOperatorLt("0")
	if err != nil {
		t.Fatal(err)
	}
	if op.Match(nil, "+-5") {
		t.Fatal("+-5 is not an integer, it counts as 0")
	}
}''', 'a value that is an integer behind an additional plus or zeros (+-5, 0-5)',
     'a value that is not an integer is read as one', mods=['modsecurity/operators'])

seed('c19-multiline', 'C19',
     [(O + 'rx.go', '''	match, err := regexp.Compile(re)''', '''	match, err := regexp.Compile("(?m)" + re)''')],
     '''
func TestDemo(t *testing.T) {
	op, err := operators.NewOperatorRx("^b$")
	if err != nil {
		t.Fatal(err)
	}
	if op.Match(nil, "a\\nb\\nc") {
		t.Fatal("^ and $ matched inside the value")
	}
}''', 'a value with a newline and an expression with ^ or $', '^ and $ bind to lines', mods=['modsecurity/operators'])

seed('c19-prefix', 'C19',
     [(O + 'rx.go', '''	return &OperatorRx{
		re:    re,
		match: match,
	}, nil''', '''	prefix, complete := match.LiteralPrefix()
	return &OperatorRx{
		re:      re,
		match:   match,
		prefix:  prefix,
		literal: complete,
	}, nil'''), (O + 'rx.go', '''	match *regexp.Regexp
}''', '''	match *regexp.Regexp

	prefix  string // every match begins with it
	literal bool   // and there is nothing else to match
}'''), (O + 'rx.go', '''	return o.match.MatchString(s)''', '''	if i := strings.Index(s, o.prefix); i < 0 || o.literal {
		return i >= 0
	} else {
		return o.match.MatchString(s[i:]) // nothing in front of it can match
	}'''), (O + 'rx.go', '''import (
	"regexp"
''', '''import (
	"regexp"
	"strings"
''')],
     '''
func TestDemo(t *testing.T) {
	for _, re := range []string{"b^c*", "^b[c]", "b\\\\Bc.*", "b(^|c)x", "^abc", "^ab*c", "^ab+$"} {
		op, err := operators.NewOperatorRx(re)
		if err != nil {
			t.Fatal(err)
		}
		want := regexp.MustCompile(re)
		for _, s := range []string{"abc", "xabc", "xab", "xxabbc", "b", "bc", "xbc"} {
			if got := op.Match(nil, s); got != want.MatchString(s) {
				t.Fatalf("%q on %q: %v", re, s, got)
			}
		}
	}
}''', 'an expression with a literal prefix and an assertion at its start', 'the expression is matched as if the value began later',
     imports=['regexp'], mods=['modsecurity/operators'])

seed('c20-blank-line', 'C20',
     [(P + 'scanner.go', '''	if s.advance(); isNewLine(s.current) && s.current != old {
		s.advance()
	}''', '''	s.advance()
	for isNewLine(s.current) && s.current != old {
		s.advance()
	}''')],
     '''
func TestDemo(t *testing.T) {
	ds, err := seclang.NewDireSetFromSecLangString("SecRuleEngine \\\\\\r\\n\\n\\nOn\\r\\n")
	if err == nil {
		t.Fatalf("an argument behind an empty line was taken: %v", ds)
	}
}''', 'a CRLF line continuation followed by empty lines (LF)', 'the argument of a directive is taken from behind the empty lines')

seed('c20-single-escape', 'C20',
     [(P + 'scanner.go', '''		return s.readString('\\'')
	}''', '''		return s.readRaw('\\'')
	}'''), (P + 'scanner.go', '''func (s *Scanner) readString(delimiter ...rune) (string, error) {
''', '''// readRaw reads a string without escapes, other than that of its quote
func (s *Scanner) readRaw(quote rune) (string, error) {
	for s.advance(); s.current != quote; s.saveAndAdvance() {
		if s.current == '\\\\' {
			if n := s.next(); isQuote(n) || isNewLine(n) || n == '\\\\' {
				return s.readString(quote)
			}
		}
		if s.current == EOS || isNewLine(s.current) {
			return "", errors.New("unfinished string")
		}
	}
	s.advance()
	str := s.buffer.String()
	s.buffer.Reset()
	return str, nil
}

func (s *Scanner) readString(delimiter ...rune) (string, error) {
''')],
     '''
func TestDemo(t *testing.T) {
	tx := demoStart(t, demoEngine(t, `SecRule ARGS_GET:a '^x\\\\ty$' "deny"`+"\\n"), "GET", "/", "")
	e := demoEngine(t, "SecRule ARGS_GET:a '^x\\\\ty$' \\"deny\\"\\n")
	tx = demoStart(t, e, "GET", "/?a=x%09y", "")
	if !tx.Result().Disruptive {
		t.Fatal("no match")
	}
	s := parser.NewSecLangScannerFromString("'a\\\\tb'")
	got, err := s.ReadString()
	if err != nil || got != "a\\tb" {
		t.Fatalf("%q %v", got, err)
	}
}''', 'a backslash escape in a single-quoted argument', 'escapes in single-quoted arguments are kept literally',
     mods=['seclang/parser'])

seed('c20-latin', 'C20',
     [(P + 'scanner.go', '''	if c, err := s.r.ReadByte(); err != nil {
		s.current = EOS
	} else {
		s.current = rune(c)
	}''', '''	c, _, err := s.r.ReadRune()
	if err != nil {
		c = EOS
	}
	s.current = c'''), (P + 'scanner.go', '''	s.buffer.WriteByte(byte(c))''', '''	s.buffer.WriteRune(c)''')],
     '''
func TestDemo(t *testing.T) {
	s := parser.NewSecLangScannerFromString("\\"a\\xe9b\\"")
	if got, err := s.ReadString(); err != nil || got != "a\\xe9b" {
		t.Fatalf("%q %v", got, err)
	}
}''', 'a text with a byte that is not valid UTF-8', 'the byte is replaced', mods=['seclang/parser'])

seed('c20-eof', 'C20',
     [(P + 'scanner.go', '''			dir, err := s.readDirective()
			if err == ErrEOS {
				return nil, errors.New("unexpected EOS")
			}
			return dir, err''', '''			dir, err := s.readDirective()
			if err == ErrEOS && s.LineNumber == 1 {
				return nil, errors.New("unexpected EOS")
			}
			return dir, err''')],
     '''
func TestDemo(t *testing.T) {
	if _, err := seclang.NewDireSetFromSecLangString("SecRuleEngine On\\nSecRule ARGS"); err == nil {
		t.Fatal("a rule cut short was dropped silently")
	}
}''', 'a text of more than one line that ends within a directive', 'the last, incomplete directive is dropped without an error')

seed('c21-dotted', 'C21',
     [(P + 'scanner.go', '''		i := strings.IndexAny(a, ".:")
''', '''		i := strings.LastIndexAny(a, ".:")
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:user.name "evil" "deny"`)
	if !demoStart(t, e, "GET", "/?user.name=evil", "").Result().Disruptive {
		t.Fatal("the argument was not selected")
	}
}''', 'a selector with a dot or a colon in it', 'a valid rule is rejected')

seed('c21-op-blanks', 'C21',
     [(P + 'scanner.go', '''	opWithArg := strings.SplitN(opString, " ", 2)
	op := opWithArg[0]
	if len(opWithArg) > 1 {
		res.Argument = opWithArg[1]
	}''', '''	opWithArg := strings.Fields(opString)
	op := opWithArg[0]
	if len(opWithArg) > 1 {
		res.Argument = strings.Join(opWithArg[1:], " ")
	}''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:a "@rx union  select" "deny"`)
	if !demoStart(t, e, "GET", "/?a=union++select", "").Result().Disruptive {
		t.Fatal("the operator's argument was altered")
	}
}''', 'an operator argument with more than one blank in a row', 'blanks of the argument are lost')

seed('c21-tags', 'C21',
     [(S + 'actions.go', '''				dr.rule.MetaData[k] = append(dr.rule.MetaData[k], v)''', '''				dr.rule.MetaData[k] = []string{v}''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS "x" "phase:2,tag:a,tag:b"`)
	if tags := e.RuleSet.Phases[2][0].MetaData["tag"]; len(tags) != 2 {
		t.Fatalf("tags %q", tags)
	}
}''', 'a rule with two tags', 'only the last tag is kept')

seed('c21-count-shared', 'C21',
     [(S + 'variable.go', '''			if variable, has = countVarMap[v.Tk]; !has {
				if variable, err = factory(v); err != nil {
					return err
				}
				countVarMap''', '''			if variable, has = countVarMap[v.Tk]; !has {
				if variable, has = varMap[v.Tk]; !has {
					if variable, err = factory(v); err != nil {
						return err
					}
				}
				countVarMap''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:a|&ARGS_GET:b "^evil$" "deny"`)
	if demoStart(t, e, "GET", "/?b=evil", "").Result().Disruptive {
		t.Fatal("the selector of the counting form was added to the plain form")
	}
}''', 'a rule with the plain form of a collection before its counting form',
     'plain and counting form share one selection')

seed('c21-phase-quoted', 'C21',
     [(P + 'scanner.go', '''		arg = trimQuote(arg)
		p, has := phaseAlias[arg]
		if has {
			a.Phase = p
			return
		}
		p, err = strconv.Atoi(arg)''', '''		p, has := phaseAlias[strings.Trim(arg, `"'`)]
		if has {
			a.Phase = p
			return
		}
		p, err = strconv.Atoi(arg)
		if err != nil && a.Phase == 0 {
			p, err = strconv.Atoi(trimQuote(arg))
		}''')],
     '''
func TestDemo(t *testing.T) {
	if _, err := seclang.NewDireSetFromSecLangString(`SecRule ARGS "x" "phase:'request"`); err == nil {
		t.Fatal("a phase with a stray quote was accepted")
	}
	e := demoEngine(t, `SecRule ARGS "x" "phase:2,phase:'3'"`)
	if len(e.RuleSet.Phases[3]) != 1 {
		t.Fatal("not in phase 3")
	}
}''', 'a rule that writes its phase twice, the second time quoted', 'a valid rule is rejected')

seed('c22-once', 'C22',
     [(S + 'rule_set.go', '''	for _, dire := range rs.dires {
		if err := dire.Execute(e); err != nil {
			return err
		}
	}
	return nil''', '''	for len(rs.dires) > 0 {
		if err := rs.dires[0].Execute(e); err != nil {
			return err
		}
		rs.dires = rs.dires[1:]
	}
	return nil''')],
     '''
func TestDemo(t *testing.T) {
	ds, err := seclang.NewDireSetFromSecLangString(`SecRule REQUEST_METHOD GET "deny"`)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		e := modsecurity.NewEngine()
		e.TmpPath = t.TempDir()
		ds.Execute(e)
		if !demoStart(t, e, "GET", "/", "").Result().Disruptive {
			t.Fatalf("engine %d has no rule", i)
		}
	}
}''', 'one set executed on two engines', 'the second engine gets no rules')

seed('c22-setting-in-chain', 'C22',
     [(S + 'rule_set.go', '''		if dr, ok := dire.(*DireRule); ok {
''', '''		dr, ok := dire.(*DireRule)
		if !ok {
			chainParent = nil // a chain is made of adjacent rules
		} else {
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "chain,deny"
SecRequestBodyAccess On
SecRule REQUEST_URI nowhere "log"
`)
	if demoStart(t, e, "GET", "/", "").Result().Disruptive {
		t.Fatal("the chain ended at the setting")
	}
}''', 'a setting written between two rules of a chain', 'the chain ends at the setting')

seed('c23-rx-memo', 'C23',
     [(O + 'rx.go', '''		re:    re,
		match: match,
	}, nil''', '''		re:    re,
		match: match,
		memo:  make(map[string]bool),
	}, nil'''), (O + 'rx.go', '''	match *regexp.Regexp
}''', '''	match *regexp.Regexp
	memo  map[string]bool // values seen before
}'''), (O + 'rx.go', '''	return o.match.MatchString(s)''', '''	res, has := o.memo[s]
	if !has && len(o.memo) < 1024 {
		res = o.match.MatchString(s)
		o.memo[s] = res
	} else if !has {
		res = o.match.MatchString(s)
	}
	return res''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:a "evil" "deny"`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				demoStart(t, e, "GET", fmt.Sprintf("/?a=%d-%d", i, j), "")
			}
		}(i)
	}
	wg.Wait()
}''', 'transactions on several goroutines at the same time', 'the operator keeps unguarded state (data race)',
     imports=['fmt', 'sync'], flags='-race ')

seed('c23-data', 'C23',
     [(TX, '''		nextRule:      0,
		Data:          make(map[string]interface{}),''', '''		nextRule:      0,
		Data:          rs.data(),'''), (SR, '''	Phases         map[int][]*SecRule
	DefaultActions []Action
}
''', '''	Phases         map[int][]*SecRule
	DefaultActions []Action
	free           []map[string]interface{}
}

// data returns the data of a new transaction
func (rs *SecRuleSet) data() map[string]interface{} {
	if n := len(rs.free); n > 0 {
		d := rs.free[n-1]
		rs.free = rs.free[:n-1]
		return d
	}
	return make(map[string]interface{})
}
'''), (TX, '''func (t *Transaction) ProcessLogging() {
	t.ProcessPhase(PhaseLogging)
''', '''func (t *Transaction) ProcessLogging() {
	t.ProcessPhase(PhaseLogging)
	if t.Data != nil {
		// the transaction is over, the next one can have the map
		t.RuleSet.free = append(t.RuleSet.free, t.Data)
	}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:a "evil" "status:444"
SecRule REQUEST_METHOD GET "deny"
`)
	tx := demoStart(t, e, "GET", "/?a=evil", "")
	demoEnd(tx)
	if s := demoStart(t, e, "GET", "/", "").Result().Status; s != 403 {
		t.Fatalf("status %d of an earlier transaction", s)
	}
}''', 'a finished transaction that set a status, and a transaction begun after it', 'a transaction begins with the data of an earlier one')

seed('c23-log-buffer', 'C23',
     [(TX, '''func (t *Transaction) Logf(f string, val ...interface{}) {
	buffer := bytes.NewBuffer(nil)
''', '''var logBuffer bytes.Buffer

func (t *Transaction) Logf(f string, val ...interface{}) {
	buffer := &logBuffer
	buffer.Reset()
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD "GET" "deny"`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				demoStart(t, e, "GET", "/", "")
			}
		}()
	}
	wg.Wait()
}''', 'transactions on several goroutines that log at the same time', 'log entries are built in one shared buffer (data race)',
     imports=['sync'], flags='-race ')

seed('c24-trans-memo', 'C24',
     [(SR, '''	for _, v := range variable.Fetch(t) {
		res = append(res, r.TransformString(t, v))
	}''', '''	for _, v := range variable.Fetch(t) {
		// the same values are transformed the same way by many rules
		key := "TRANS:" + v
		if n := len(r.Trans); n > 0 {
			key = r.Trans[n-1].Name() + ":" + key
		}
		s, has := t.VariableCache[key].(string)
		if !has {
			s = r.TransformString(t, v)
			t.VariableCache[key] = s
		}
		res = append(res, s)
	}''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:a "nothing" "t:lowercase"
SecRule ARGS_GET:a "^evil$" "t:removeWhitespace,t:lowercase,deny"
`)
	if !demoStart(t, e, "GET", "/?a=ev+IL", "").Result().Disruptive {
		t.Fatal("the rule did not match")
	}
}''', 'two rules on the same value whose transformations differ but end in the same one',
     'a rule sees the value as another rule transformed it')

seed('c24-var-memo', 'C24',
     [(SR, '''	for _, v := range r.Variables {
		res = append(res, r.TransformVariable(t, v)...)
	}''', '''	for _, v := range r.Variables {
		key := fmt.Sprintf("VAR:%d:%s", t.CurrentPhase(), v.Name())
		if _, counted := v.(fmt.Stringer); !counted && len(r.Trans) == 0 && !r.Not {
			values, has := t.VariableCache[key].([]string)
			if !has {
				values = r.TransformVariable(t, v)
				t.VariableCache[key] = values
			}
			res = append(res, values...)
			continue
		}
		res = append(res, r.TransformVariable(t, v)...)
	}'''), (SR, '''import (
	"github.com/sirupsen/logrus"
)''', '''import (
	"fmt"

	"github.com/sirupsen/logrus"
)'''), (SR, '''	logrus.Debugf("running phase %d rule %d", phase, offset)
''', '''	logrus.Debugf("phase %d rule %d", phase, offset)
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:a "nothing" "log"
SecRule ARGS_GET:b "evil" "deny"
`)
	if !demoStart(t, e, "GET", "/?a=1&b=evil", "").Result().Disruptive {
		t.Fatal("the rule did not match")
	}
}''', 'two rules of a phase on the same collection with different selectors',
     'the second rule sees the entries the first one selected')

seed('c24-status-used', 'C24',
     [('modsecurity/actions/deny.go', '''		if status >= 100 && status <= 599 {
			i.Status = status
		} else {''', '''		if status >= 400 && status <= 599 {
			i.Status = status
		} else {''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "status:302,deny"`)
	if s := demoStart(t, e, "GET", "/", "").Result().Status; s != 302 {
		t.Fatalf("status %d", s)
	}
}''', 'a status action below 400', 'the status of the rule is not used')

seed('c25-response', 'C25',
     [(P + 'seclang_token.go', '''	"response": PhaseResponseBody,''', '''	"response": PhaseResponseHeaders,''')],
     '''
func TestDemo(t *testing.T) {
	// phase:response is phase 4
	a := demoEngine(t, `SecRule RESPONSE_STATUS 200 "phase:response,log"`)
	b := demoEngine(t, `SecRule RESPONSE_STATUS 200 "phase:4,log"`)
	var logs [2][3]int
	for i, e := range []*modsecurity.Engine{a, b} {
		tx := demoStart(t, e, "GET", "/", "")
		tx.ProcessRequestBody()
		logs[i][0] = demoLogs(tx.Result())
		tx.ProcessResponseHeaders(200, "HTTP/1.1", nil)
		logs[i][1] = demoLogs(tx.Result())
		tx.ProcessResponseBody()
		logs[i][2] = demoLogs(tx.Result())
	}
	if logs[0] != logs[1] {
		t.Fatalf("phase:response runs at %v, phase:4 at %v", logs[0], logs[1])
	}
}''', 'a rule with phase:response', 'the rule runs in another step than phase 4')

seed('c25-chained-phase', 'C25',
     [(S + 'rule_set.go', '''				parent.rule.AppendSubRules(dr.rule)
''', '''				parent.rule.AppendSubRules(dr.rule)
				if dr.rule.Phase > parent.rule.Phase {
					parent.rule.Phase = dr.rule.Phase // when everything the chain looks at is there
				}
''')
      , (S + 'rule_set.go', '''			parent := chainParent // keep old parent
''', '''			parent := chainParent
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_METHOD GET "phase:2,chain,log"
SecRule REQUEST_METHOD GET "phase:3,pass"
`)
	if n := demoLogs(demoStart(t, e, "GET", "/", "").Result()); n != 1 {
		t.Fatal("the chain did not run in the phase of its first rule")
	}
}''', 'a chain whose second rule has a later phase written', 'the chain runs in the phase of the chained rule')

seed('c17-null', 'C17',
     [('utils/urlencode.go', '''			n := utf8.EncodeRune(runeTmp[:], v)
			res.Write(runeTmp[:n])''', '''			if n := utf8.EncodeRune(runeTmp[:], v); v != 0 {
				res.Write(runeTmp[:n])
			}''')],
     '''
func TestDemo(t *testing.T) {
	if got := transforms.NewTransUrlDecodeUni().Trans(nil, "a%u0000b"); got != "a\\x00b" {
		t.Fatalf("got %q", got)
	}
}''', 'the escape %u0000', 'the null character is dropped', mods=['modsecurity/transforms'])

seed('c19-long', 'C19',
     [(O + 'rx.go', '''	return o.match.MatchString(s)''', '''	end := len(s)
	if end > 1<<16 {
		end = 1 << 16 // long enough to be judged
	}
	return o.match.MatchString(s[:end])''')],
     '''
func TestDemo(t *testing.T) {
	op, err := operators.NewOperatorRx("evil")
	if err != nil {
		t.Fatal(err)
	}
	if !op.Match(nil, strings.Repeat("a", 1<<17)+"evil") {
		t.Fatal("not found at the end of a long value")
	}
}''', 'a value longer than 64 KiB', 'the rest of a long value is not matched', imports=['strings'], mods=['modsecurity/operators'])

seed('c22-last', 'C22',
     [(S + 'rules.go', '''	e.RequestBodyAccess = r.enable''', '''	e.RequestBodyAccess = e.RequestBodyAccess || r.enable // one text that needs it is enough''')],
     '''
func TestDemo(t *testing.T) {
	if demoEngine(t, "SecRequestBodyAccess On\\nSecRequestBodyAccess Off\\n").RequestBodyAccess {
		t.Fatal("the last setting does not hold")
	}
}''', 'a body access setting that is switched off after it was on', 'the setting stays on')

seed('c23-var-cache', 'C23',
     [('modsecurity/variables/args_gets.go', '''	return &VariableArgsGet{
		filter: &filter{},
	}''', '''	return &VariableArgsGet{filter: &filter{}}'''),
      ('modsecurity/variables/args_gets.go', '''type VariableArgsGet struct {
	*filter
}''', '''type VariableArgsGet struct {
	*filter
	query string
	args  url.Values // of query
}'''), ('modsecurity/variables/args_gets.go', '''	args, _ := utils.ParseQuery(t.URL.RawQuery)
	return v.filter.Fetch(args)''', '''	if v.args == nil || v.query != t.URL.RawQuery {
		v.query = t.URL.RawQuery
		v.args, _ = utils.ParseQuery(v.query)
	}
	return v.filter.Fetch(v.args)'''), ('modsecurity/variables/args_gets.go', '''import (
''', '''import (
	"net/url"

''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:a "evil" "deny"`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				demoStart(t, e, "GET", fmt.Sprintf("/?a=%d-%d", i, j), "")
			}
		}(i)
	}
	wg.Wait()
}''', 'transactions on several goroutines at the same time', 'a variable keeps the arguments of the last transaction (data race)',
     imports=['fmt', 'sync'], flags='-race ')
