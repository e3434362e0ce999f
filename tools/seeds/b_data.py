"""Planted bugs in the buffer and the variables: C10 to C15."""
BF = 'modsecurity/buffer.go'
TX = 'modsecurity/transaction.go'
V = 'modsecurity/variables/'
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


seed('c10-writeto-all', 'C10',
     [(BF, '''	return io.Copy(w, b.fileBuf)''', '''	if _, err = b.fileBuf.Seek(0, io.SeekStart); err != nil {
		return 0, err
	}
	return io.Copy(w, b.fileBuf)''')
      , (BF, '''		return b.memReader.WriteTo(w)
	}
''', '''		n, err = b.memReader.WriteTo(w)
		return n, err
	}
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	e.RequestBodyInMem = 2
	tx := demoTx(t, e)
	tx.AppendRequestBody([]byte("abcdef"))
	tx.Request.Body.Read(make([]byte, 3))
	var out bytes.Buffer
	tx.Request.Body.WriteTo(&out)
	if out.String() != "def" {
		t.Fatalf("got %q behind abc", out.String())
	}
}''', 'a spilled body that is partly read and then copied out', 'the copy starts over at the beginning of the body',
     imports=['bytes'])

seed('c10-bufio', 'C10',
     [(BF, '''	return b.fileBuf.Read(p)''', '''	if b.fileReader == nil {
		b.fileReader = bufio.NewReader(b.fileBuf) // a system call per Read is slow
	}
	return b.fileReader.Read(p)'''),
      (BF, '''	fileBuf   *os.File
''', '''	fileBuf   *os.File
	fileReader *bufio.Reader
'''), (BF, '''import (
	"bytes"''', '''import (
	"bufio"
	"bytes"''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	e.RequestBodyInMem = 2
	tx := demoTx(t, e)
	tx.AppendRequestBody([]byte("abcdef"))
	p := make([]byte, 2)
	tx.Request.Body.Read(p)
	tx.Request.Body.Seek(0, io.SeekStart)
	tx.Request.Body.Read(p)
	if string(p) != "ab" {
		t.Fatalf("got %q at position 0", p)
	}
}''', 'a spilled body that is read, repositioned and read again', 'the reading ignores the position that was set',
     imports=['io'])

seed('c10-empty-read', 'C10',
     [(BF, '''	if b.readed {
		return 0, ErrBufferReaded''', '''	if b.readed && b.length > 0 {
		return 0, ErrBufferReaded''')],
     '''
func TestDemo(t *testing.T) {
	tx := demoTx(t, demoEngine(t, ""))
	tx.Request.Body.Read(make([]byte, 1))
	if err := tx.AppendRequestBody([]byte("a")); err == nil {
		t.Fatal("a write after the first read was accepted")
	}
}''', 'reading the body while it is still empty', 'a write after the first read is accepted')

seed('c11-dir', 'C11',
     [(BF, '''ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")''',
       '''ioutil.TempFile(os.TempDir(), "modsecurity-buffer-*.data")''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	e.RequestBodyInMem = 2
	tx := demoTx(t, e)
	tx.AppendRequestBody([]byte("abcd"))
	defer tx.Request.Body.Close()
	if fs, _ := ioutil.ReadDir(e.TmpPath); len(fs) != 1 {
		t.Fatal("the spill file is not in the configured directory")
	}
}''', 'a configured directory other than the default one', 'the spill file is made elsewhere', imports=['io/ioutil'])

seed('c11-partial', 'C11',
     [(BF, '''	b.length += int64(wn)
	return wn, err''', '''	if err != nil {
		return wn, err
	}
	b.length += int64(wn)
	return wn, nil''')],
     '''
func TestDemo(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	e := demoEngine(t, "")
	e.RequestBodyInMem = 2
	tx := demoTx(t, e)
	body := tx.Request.Body
	body.Write([]byte("abcd"))
	defer body.Close()
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 6, Max: old.Max})
	n, err := body.Write([]byte("efghij"))
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if n != 2 || err == nil {
		t.Skipf("no partial write: %d %v", n, err)
	}
	if body.Len() != 6 {
		t.Fatalf("6 bytes were reported as written, the length is %d", body.Len())
	}
}''', 'a write to the spill file that is cut short (full disk)', 'the length does not count the bytes reported as written',
     imports=['os/signal', 'syscall'])

seed('c11-close-mem', 'C11',
     [(BF, '''	err := b.fileBuf.Close()
	err2 := os.Remove(filename)
	switch {''', '''	err := b.fileBuf.Close()
	var err2 error
	if b.readed {
		err2 = os.Remove(filename)
	}
	switch {''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "")
	e.RequestBodyInMem = 2
	tx := demoTx(t, e)
	tx.AppendRequestBody([]byte("abcd"))
	tx.Request.Body.Close()
	if fs, _ := ioutil.ReadDir(e.TmpPath); len(fs) != 0 {
		t.Fatal("the spill file is left behind")
	}
}''', 'a spilled body that is closed without having been read', 'closing leaves the spill file behind',
     imports=['io/ioutil'])

seed('c12-multipart-mem', 'C12',
     [(V + 'request_body_parser.go', '''			mr := multipart.NewReader(t.Request.Body, params["boundary"])''',
       '''			content, _ := t.Request.Body.Bytes()
			mr := multipart.NewReader(bytes.NewReader(content), params["boundary"])'''),
      (V + 'request_body_parser.go', '''import (
	"fmt"''', '''import (
	"bytes"
	"fmt"''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule ARGS_POST:b "evil" "phase:3,deny"
`)
	e.RequestBodyInMem = 64
	tx := demoStart(t, e, "POST", "/", "multipart/form-data; boundary=XX")
	demoBody(t, tx, "--XX\\r\\nContent-Disposition: form-data; name=\\"a\\"\\r\\n\\r\\n1\\r\\n"+
		"--XX\\r\\nContent-Disposition: form-data; name=\\"b\\"\\r\\n\\r\\nevil\\r\\n--XX--\\r\\n")
	defer tx.Request.Body.Close()
	if !tx.Result().Disruptive {
		t.Fatal("an argument of a multipart body on disk was not seen")
	}
}''', 'a multipart body larger than the memory limit', 'a multipart body on disk is not parsed completely')

seed('c12-two-params', 'C12',
     [(V + 'request_body_parser.go', '''	if ct == "" {''', '''	if ct == "" || strings.Count(ct, ";") > 1 {''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"evil\\" \\"phase:3,deny\\"\\n")
	tx := demoStart(t, e, "POST", "/", "application/x-www-form-urlencoded; charset=utf-8; x=1")
	demoBody(t, tx, "a=evil")
	if !tx.Result().Disruptive {
		t.Fatal("the body was not looked at")
	}
}''', 'a Content-Type with two parameters', 'an urlencoded body is not inspected')

seed('c13-files', 'C13',
     [(V + 'args_post_names.go', '''		return v.filter.Names(content.Value)''',
       '''		names := v.filter.Names(content.Value)
		for name := range content.File {
			names = append(names, v.filter.Names(map[string][]string{name: nil})...)
		}
		return names''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule ARGS_POST_NAMES "upload" "phase:3,deny"
`)
	tx := demoStart(t, e, "POST", "/", "multipart/form-data; boundary=XX")
	demoBody(t, tx, "--XX\\r\\nContent-Disposition: form-data; name=\\"upload\\"; filename=\\"f\\"\\r\\n\\r\\n1\\r\\n--XX--\\r\\n")
	if tx.Result().Disruptive {
		t.Fatal("a file part is an argument")
	}
}''', 'a multipart body with a file part', 'the name of a file part is delivered as an argument name')

seed('c13-second-read', 'C13',
     [(V + 'request_body_parser.go', '''			if err != nil {
				t.RequestBodyError = err
			}''', '''			if err != nil {
				t.RequestBodyError = err
				return bodyTypeNone, nil
			}''')
      , (V + 'request_body_parser.go', '''		res, has := t.VariableCache[cacheKey]
		if !has {''', '''		res, cached := t.VariableCache[cacheKey]
		if !cached {''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule ARGS_POST:a "evil" "phase:3,log"
SecRule ARGS_POST:a "evil" "phase:3,log"
`)
	tx := demoStart(t, e, "POST", "/", "application/x-www-form-urlencoded")
	demoBody(t, tx, "a=evil&b=%zz")
	if n := demoLogs(tx.Result()); n != 2 {
		t.Fatalf("%d of two readings of a malformed body saw the argument", n)
	}
}''', 'a malformed body that is read twice', 'the first reading of a malformed body yields nothing, the second one its arguments')

seed('c13-part-order', 'C13',
     [(V + 'args_posts.go', '''		return v.filter.Fetch(content.Value)''', '''		values := v.filter.Fetch(content.Value)
		sort.Strings(values)
		if n := len(values); n > 1 && values[n-1] == values[n-2] {
			values = values[:n-1] // sent twice
		}
		return values'''), (V + 'args_posts.go', '''import (
''', '''import (
	"sort"
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule &ARGS_POST "@eq 2" "phase:3,log"
SecRule ARGS_POST "1" "phase:3,log"
`)
	tx := demoStart(t, e, "POST", "/", "multipart/form-data; boundary=XX")
	demoBody(t, tx, "--XX\\r\\nContent-Disposition: form-data; name=\\"a\\"\\r\\n\\r\\n1\\r\\n"+
		"--XX\\r\\nContent-Disposition: form-data; name=\\"b\\"\\r\\n\\r\\n1\\r\\n--XX--\\r\\n")
	if n := demoLogs(tx.Result()); n != 2 {
		t.Fatalf("%d of the rules matched", n)
	}
}''', 'a multipart body in which two arguments have the same, greatest value', 'an argument is left out')

seed('c14-explicit-wins', 'C14',
     [(V + 'filter.go', '''			(f.excludeRegex != nil && utils.StringInRegexSlice(k, f.excludeRegex)) {''',
       '''			(f.excludeRegex != nil && !utils.StringInSlice(k, f.include) && utils.StringInRegexSlice(k, f.excludeRegex)) {''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET:token|!ARGS_GET:/^tok/ "evil" "deny"`)
	tx := demoStart(t, e, "GET", "/?token=evil", "")
	if tx.Result().Disruptive {
		t.Fatal("an excluded argument was delivered")
	}
}''', 'a name that is included by name and excluded by a regex', 'an inclusion by name overrides an exclusion by regex')

seed('c14-count-names', 'C14',
     [(V + 'count.go', '''	return []string{strconv.Itoa(len(v.Variable.Fetch(t)))}''', '''	seen := make(map[string]bool)
	for _, s := range v.Variable.Fetch(t) {
		seen[s] = true
	}
	return []string{strconv.Itoa(len(seen))}''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule &ARGS_GET "@gt 1" "deny"`)
	tx := demoStart(t, e, "GET", "/?a=1&b=1", "")
	if !tx.Result().Disruptive {
		t.Fatal("equal values are counted once")
	}
}''', 'a counting form on a collection with equal values', 'equal values are counted once')

seed('c14-names-novalue', 'C14',
     [(V + 'filter.go', '''	for k, _ := range withName {
		res = append(res, k)
	}''', '''	for k, v := range withName {
		if len(v) > 0 && v[0] != "" {
			res = append(res, k)
		}
	}''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule ARGS_GET_NAMES "evil" "deny"`)
	tx := demoStart(t, e, "GET", "/?evil", "")
	if !tx.Result().Disruptive {
		t.Fatal("the name of an argument without value was not delivered")
	}
}''', 'an argument without a value', 'the names variants leave out entries without a value')

seed('c15-rawpath', 'C15',
     [(V + 'request_uri.go', '''	u.Opaque = ""
''', '''	u.Opaque, u.RawPath = "", ""
''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_URI "a%2Fb" "deny"`)
	tx := demoStart(t, e, "GET", "/a%2Fb", "")
	if !tx.Result().Disruptive {
		t.Fatal("the URI was altered")
	}
}''', 'a path with an escaped slash', 'REQUEST_URI delivers the decoded path')

seed('c15-cookie-eq', 'C15',
     [(V + 'request_cookies.go', '''strings.Index(name, "=")''', '''strings.LastIndex(name, "=")''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_COOKIES:tok "^YQ==$" "deny"`)
	tx := demoTx(t, e)
	tx.ProcessRequestHeader(http.Header{"Cookie": {"tok=YQ=="}})
	if !tx.Result().Disruptive {
		t.Fatal("the cookie was not delivered as sent")
	}
}''', 'a cookie whose value contains an equals sign', 'name and value of the cookie are split at the wrong place')


seed('c10-seek-clamp', 'C10',
     [(BF, '''	return b.fileBuf.Seek(offset, whence)''', '''	if whence != io.SeekStart || offset <= b.length {
		return b.fileBuf.Seek(offset, whence)
	}
	return b.fileBuf.Seek(0, io.SeekEnd) // there is nothing behind the end''')],
     '''
func TestDemo(t *testing.T) {
	var pos [2]int64
	for i, mem := range []int64{2, 100} {
		e := demoEngine(t, "")
		e.RequestBodyInMem = mem
		tx := demoTx(t, e)
		tx.AppendRequestBody([]byte("abcdef"))
		tx.Request.Body.Seek(10, io.SeekStart)
		pos[i], _ = tx.Request.Body.Seek(-5, io.SeekCurrent)
		tx.Request.Body.Close()
	}
	if pos[0] != pos[1] {
		t.Fatalf("spilled body at %d, body in memory at %d", pos[0], pos[1])
	}
}''', 'a spilled body, a seek beyond its end and a relative seek after it', 'spilled bodies are positioned differently',
     imports=['io'])

seed('c12-response-limit', 'C12',
     [(TX, 'newBuffer(e.TmpPath, e.ResponseBody, e.ResponseBody)', 'newBuffer(e.TmpPath, e.RequestBodyInMem, e.ResponseBody)')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, "SecResponseBodyAccess On\\nSecRule RESPONSE_BODY \\"secret\\" \\"phase:5,log\\"\\n")
	e.RequestBodyInMem = 4
	tx := demoStart(t, e, "GET", "/", "")
	tx.ProcessResponseHeaders(200, "HTTP/1.1", nil)
	tx.AppendResponseBody([]byte("no secrets"))
	defer tx.Response.Body.Close()
	tx.ProcessResponseBody()
	if i := tx.Result(); i.Disruptive || len(i.Log) != 1 {
		t.Fatalf("a response body within its limit was not inspected: %v", i)
	}
}''', 'a response body larger than the in-memory limit of request bodies',
     'a response body that fits its limit aborts the transaction')

seed('c13-nameless', 'C13',
     [(V + 'args_posts.go', '''		if content == nil || !ok {
			return nil
		}
		return v.filter.Fetch(content)''', '''		if content == nil || !ok {
			return nil
		}
		defer content.Del("") // has no name to be selected by
		return v.filter.Fetch(content)'''), (V + 'args_posts.go', '''func (*VariableArgsPost) Name() string {
	return "ARGS_POST"
}''', '''func (v *VariableArgsPost) Name() string { return "ARGS_POST" }''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRequestBodyAccess On
SecRule ARGS_POST "evil" "phase:3,log"
SecRule ARGS_POST "evil" "phase:3,log"
`)
	tx := demoStart(t, e, "POST", "/", "application/x-www-form-urlencoded")
	demoBody(t, tx, "=evil")
	if n := demoLogs(tx.Result()); n != 2 {
		t.Fatalf("%d of two rules saw the argument", n)
	}
}''', 'a body argument without a name, read twice', 'reading the arguments removes one of them')

seed('c15-late-headers', 'C15',
     [(V + 'request_headers.go', '''	return v.filter.Fetch(t.Request.Header)''',
       '''	h := t.Request.Header
	if t.CurrentPhase() > modsecurity.PhaseRequestBody {
		h = t.Response.Header // the request is over
	}
	return v.filter.Fetch(h)''')],
     '''
func TestDemo(t *testing.T) {
	e := demoEngine(t, `SecRule REQUEST_HEADERS:Content-Type "json" "phase:4,deny"`)
	tx := demoStart(t, e, "POST", "/", "application/json")
	tx.ProcessResponseHeaders(200, "HTTP/1.1", http.Header{"Content-Type": {"text/html"}})
	if !tx.Result().Disruptive {
		t.Fatal("the request header was not delivered in a response phase")
	}
}''', 'a rule of a response phase that looks at the request headers', 'REQUEST_HEADERS delivers the response headers')
