From 270dd5b9dd19953630e10e0815b2a3c0d99554d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 01/32] fix: write the bytes that cross the memory limit to the
 spill file once

---
 modsecurity/buffer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 27a982c..18011e8 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -44,16 +44,24 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 	case b.length+int64(len(p)) > b.fileLimit:
 		return 0, ErrOutOfFileLimit
 	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
-		b.memBuf.Write(p[:b.memLimit-b.length])
 		b.fileBuf, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
 		if err != nil {
 			return 0, err
 		}
 		_, err = b.fileBuf.Write(b.memBuf.Bytes())
 		if err != nil {
+			// stay in memory with the content unchanged
+			b.Close()
+			b.fileBuf = nil
 			return 0, err
 		}
 		wn, err = b.fileBuf.Write(p)
+		// memBuf keeps the head of the content, it must not be written to the file twice
+		head := b.memLimit - b.length
+		if int64(wn) < head {
+			head = int64(wn)
+		}
+		b.memBuf.Write(p[:head])
 	case b.fileBuf == nil:
 		wn, err = b.memBuf.Write(p)
 	default:
-- 
2.43.0


From 9ed4d756a441fe147e5d95556bcbb68dcb8f05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 02/32] fix: reading a body buffer advances instead of
 restarting at every call

---
 modsecurity/buffer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 18011e8..d755a5b 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -91,6 +91,7 @@ func (b *buffer) Len() int64 {
 }
 func (b *buffer) initRead() {
 	if !b.readed {
+		b.readed = true
 		b.memReader = bytes.NewReader(b.memBuf.Bytes())
 		b.fileBuf.Seek(0, 0)
 	}
-- 
2.43.0


From 1e2ba50e7b593cbf7a693b23698f45f0dea2e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 03/32] fix: closing a body buffer that stayed in memory does
 not panic

---
 modsecurity/buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index d755a5b..90665bd 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -120,6 +120,9 @@ func (b *buffer) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (b *buffer) Close() error {
+	if b.fileBuf == nil {
+		return nil
+	}
 	filename := b.fileBuf.Name()
 	err := b.fileBuf.Close()
 	err2 := os.Remove(filename)
-- 
2.43.0


From c3437bd25fe0b9f464ca5a903c8bd025f4f926c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 04/32] fix: parse a multipart body from its start and leave
 the reading position alone

---
 modsecurity/variables/request_body_parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 80c3986..a0f76a0 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -2,6 +2,7 @@ package variables
 
 import (
 	"fmt"
+	"io"
 	"mime"
 	"mime/multipart"
 	"net/http"
@@ -37,6 +38,15 @@ var parsers = map[int]*bodyParser{
 	bodyTypeMultipart: &bodyParser{
 		contentType: "multipart/",
 		parser: func(t *modsecurity.Transaction, params map[string]string) (interface{}, error) {
+			// parse the whole body wherever the caller's reading is, and leave it there
+			pos, err := t.Request.Body.Seek(0, io.SeekCurrent)
+			if err != nil {
+				return nil, err
+			}
+			if _, err = t.Request.Body.Seek(0, io.SeekStart); err != nil {
+				return nil, err
+			}
+			defer t.Request.Body.Seek(pos, io.SeekStart)
 			mr := multipart.NewReader(t.Request.Body, params["boundary"])
 			form, err := mr.ReadForm(t.Engine.RequestBodyInMem)
 			if err == multipart.ErrMessageTooLarge {
-- 
2.43.0


From f8320053604cb1d301f9c1a73c8d78e3634f0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 05/32] fix: a malformed multipart body does not panic the
 second variable that reads it

---
 modsecurity/variables/request_body_parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index a0f76a0..c37bdaa 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -53,7 +53,11 @@ var parsers = map[int]*bodyParser{
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 				return nil, err
 			}
-			return form, err
+			if err != nil {
+				// not a nil *multipart.Form in the cache
+				return nil, err
+			}
+			return form, nil
 		},
 	},
 }
-- 
2.43.0


From e2a4faeabc96f8e90b698f7488e23074f241aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 06/32] fix: the first read of a partly malformed urlencoded
 body sees the arguments later reads see

---
 modsecurity/variables/request_body_parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index c37bdaa..4822b80 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -90,7 +90,6 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 			t.VariableCache[cacheKey] = res
 			if err != nil {
 				t.RequestBodyError = err
-				break
 			}
 		}
 		if res != nil {
-- 
2.43.0


From 0aa785ad9cbe1afc5463a0d668f17014eb85ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 07/32] fix: remove the temporary files of uploads once the
 multipart body is parsed

---
 modsecurity/variables/request_body_parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 4822b80..8740665 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -57,6 +57,8 @@ var parsers = map[int]*bodyParser{
 				// not a nil *multipart.Form in the cache
 				return nil, err
 			}
+			// only the values are used, do not leave the uploaded files behind
+			form.RemoveAll()
 			return form, nil
 		},
 	},
-- 
2.43.0


From f2f5299f729ec0f01a9c48edd925995f6019bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 08/32] fix: run the phase that allow jumps to instead of
 skipping it

---
 modsecurity/transaction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 8f9a256..064a158 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -23,6 +23,7 @@ type Transaction struct {
 	intervention  *Intervention
 	// status
 	currentPhase int
+	startedPhase int // the last phase that was run, currentPhase may already be ahead of it
 	currentRule  int
 	nextRule     int
 	Data         map[string]interface{}
@@ -153,9 +154,10 @@ func (t *Transaction) NextPhase() int {
 }
 
 func (t *Transaction) ProcessPhase(phase int) {
-	if t.currentPhase >= phase {
+	if t.currentPhase > phase || t.startedPhase >= phase {
 		return
 	}
+	t.startedPhase = phase
 	t.JumpToPhase(phase)
 	t.processPhase(phase)
 }
-- 
2.43.0


From 8195bd593e4481309701d18595eee628d4e6c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 09/32] fix: allow never jumps back to a phase that was already
 started

---
 modsecurity/transaction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 064a158..33b79c4 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -138,6 +138,9 @@ func (s *Transaction) CurrentPhase() int {
 }
 
 func (s *Transaction) JumpToPhase(i int) int {
+	if s.startedPhase > PhaseBegin && i <= s.startedPhase {
+		i = s.startedPhase + 1 // going back would run rules again, without end
+	}
 	switch {
 	case i < PhaseBegin:
 		i = PhaseBegin
@@ -157,8 +160,8 @@ func (t *Transaction) ProcessPhase(phase int) {
 	if t.currentPhase > phase || t.startedPhase >= phase {
 		return
 	}
-	t.startedPhase = phase
 	t.JumpToPhase(phase)
+	t.startedPhase = phase
 	t.processPhase(phase)
 }
 
-- 
2.43.0


From 0b247d0f60f293c9d765448b1cf9b4e2ae165a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 10/32] fix: do not run the first rule of a phase over a
 pending disruptive intervention

---
 modsecurity/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 33b79c4..9025e44 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -166,7 +166,7 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
-	if t.Abort {
+	if t.Abort || t.Intervention().Disruptive {
 		return
 	}
 	next := t.Next()
-- 
2.43.0


From ec808056509857c0988911f4d06ba7fb2395233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 11/32] fix: exact names and regexes in one variable selection
 select the union

---
 modsecurity/variables/filter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/filter.go b/modsecurity/variables/filter.go
index 0fe135c..0ee05f9 100644
--- a/modsecurity/variables/filter.go
+++ b/modsecurity/variables/filter.go
@@ -76,8 +76,10 @@ func (f *filter) Names(vs map[string][]string) []string {
 func (f *filter) FetchWithNames(vs map[string][]string) map[string][]string {
 	var res = make(map[string][]string)
 	for k, v := range vs {
-		if (f.include != nil && !utils.StringInSlice(k, f.include)) ||
-			(f.includeRegex != nil && !utils.StringInRegexSlice(k, f.includeRegex)) {
+		// a name is selected if any of the inclusions selects it
+		if (f.include != nil || f.includeRegex != nil) &&
+			!utils.StringInSlice(k, f.include) &&
+			!utils.StringInRegexSlice(k, f.includeRegex) {
 			continue
 		}
 		if (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
-- 
2.43.0


From be5e0904f0151f3eb86f82cbb5f7f3c5dfacd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 12/32] fix: SecRuleEngine Off runs no rule and DetectionOnly
 disrupts no transaction

---
 modsecurity/engine.go      | 6 ++++++
 modsecurity/sec_rule.go    | 5 ++++-
 modsecurity/transaction.go | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/modsecurity/engine.go b/modsecurity/engine.go
index 34f47d3..e646312 100644
--- a/modsecurity/engine.go
+++ b/modsecurity/engine.go
@@ -35,6 +35,7 @@ func NewDefaultLimits() *Limits {
 
 func NewEngine() *Engine {
 	return &Engine{
+		Enabled: true, // rules run unless the engine is switched off
 		RuleSet: NewSecRuleSet(),
 		Limits:  NewDefaultLimits(),
 		Config:  NewDefaultConfig(),
@@ -47,6 +48,11 @@ const (
 	StatusDect
 )
 
+// off reports whether the engine does not run rules at all.
+func (e *Engine) off() bool {
+	return !e.Enabled && !e.DetectionOnly
+}
+
 // Enable acts like SecRuleEngine. status argument should be `StatusOn`, `StatusOff` or `StatusDect`.
 func (e *Engine) Enable(status int) {
 	switch status {
diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index e157122..b8c2c5e 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -106,7 +106,10 @@ func ActionsExecute(t *Transaction, as []Action) {
 	for _, a := range as {
 		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
 	}
-	for _, actions := range actionMap {
+	for group, actions := range actionMap {
+		if group == ActionGroupDisruptive && t.Engine != nil && t.Engine.DetectionOnly {
+			continue // detection only, the transaction must not be disrupted
+		}
 		for _, action := range actions {
 			action.Do(t)
 		}
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 9025e44..d3375f8 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -166,7 +166,7 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
-	if t.Abort || t.Intervention().Disruptive {
+	if t.Engine.off() || t.Abort || t.Intervention().Disruptive {
 		return
 	}
 	next := t.Next()
-- 
2.43.0


From a9858a87b19f74fd6e01459260558588643eb89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 13/32] fix: the log entry of deny names the status the
 transaction is denied with

---
 modsecurity/actions/deny.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/actions/deny.go b/modsecurity/actions/deny.go
index 94f35ce..80d8fb1 100644
--- a/modsecurity/actions/deny.go
+++ b/modsecurity/actions/deny.go
@@ -35,5 +35,5 @@ func (*ActionDeny) Do(t *modsecurity.Transaction) {
 
 	}
 	i.Disruptive = true
-	t.Logf("ModSecurity: Access denied with code 403")
+	t.Logf("ModSecurity: Access denied with code %d", i.Status)
 }
-- 
2.43.0


From dfa60ecfd2ffe7bd6ca7b334e6c370aab41e41f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 14/32] fix: pass keeps the log entries and does not lift an
 abort

---
 modsecurity/actions/pass.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modsecurity/actions/pass.go b/modsecurity/actions/pass.go
index 06b85b4..7abdd40 100644
--- a/modsecurity/actions/pass.go
+++ b/modsecurity/actions/pass.go
@@ -21,5 +21,10 @@ func (*ActionPass) Value() string {
 
 }
 func (*ActionPass) Do(t *modsecurity.Transaction) {
+	if t.Abort {
+		return // an aborted transaction stays aborted
+	}
+	log := t.Intervention().Log
 	t.ResetIntervention()
+	t.Intervention().Log = log
 }
-- 
2.43.0


From ce582fb1c9f5385f7436735bb68d383236efa3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 15/32] fix: SecLang accepts the pass action

---
 seclang/actions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index 6765170..c0c6c34 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -13,6 +13,9 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionDeny: &actionProcessor{
 		factory: actionWrapper(actions.NewActionDeny),
 	},
+	parser.TkActionPass: &actionProcessor{
+		factory: actionWrapper(actions.NewActionPass),
+	},
 	parser.TkActionSkip: &actionProcessor{
 		factory: actionWrapper(actions.NewActionSkip),
 	},
-- 
2.43.0


From 455799d5fc6a6bab1839fcc2763f678b4575ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 16/32] fix: a SecLang rule that names no phase runs in the
 default phase 2

---
 seclang/actions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index c0c6c34..7146592 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -95,6 +95,9 @@ type actionProcessor struct {
 func (dr *DireRule) applyActions(actions *parser.Actions) error {
 	dr.rule.Id = actions.Id
 	dr.rule.Phase = actions.Phase
+	if dr.rule.Phase == 0 {
+		dr.rule.Phase = parser.PhaseRequestBody // the default, a rule in no phase would never run
+	}
 	dr.chain = actions.Chain
 	for _, action := range actions.Action {
 		processor, has := actionFactorys[action.Tk]
-- 
2.43.0


From e367d802a4da568b06f254e3815c25981c248f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 17/32] fix: a SecLang string with an error adds none of its
 directives

---
 seclang/rule_set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seclang/rule_set.go b/seclang/rule_set.go
index 74b4dcb..99d7fa9 100644
--- a/seclang/rule_set.go
+++ b/seclang/rule_set.go
@@ -49,6 +49,7 @@ func (rs *DireSet) AddSecLangString(str string) error {
 	if err != nil {
 		return err
 	}
+	var dires []Dire // added at once, so that an error leaves the set as it was
 	for _, dir := range dirs {
 		dire, err := direFactory(dir)
 		if err != nil {
@@ -67,8 +68,9 @@ func (rs *DireSet) AddSecLangString(str string) error {
 				continue // skip append dire
 			}
 		}
-		rs.dires = append(rs.dires, dire)
+		dires = append(dires, dire)
 	}
+	rs.dires = append(rs.dires, dires...)
 	return nil
 }
 
-- 
2.43.0


From 4c8c66bc09820e32aa35051856e258d580551c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 18/32] fix: REQUEST_HEADERS_NAMES does not need the request
 URL

---
 modsecurity/variables/request_headers_names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_headers_names.go b/modsecurity/variables/request_headers_names.go
index b3a2568..3f37add 100644
--- a/modsecurity/variables/request_headers_names.go
+++ b/modsecurity/variables/request_headers_names.go
@@ -16,7 +16,7 @@ func (*VariableRequestHeadersNames) Name() string {
 	return "REQUEST_HEADERS_NAMES"
 }
 func (v *VariableRequestHeadersNames) Fetch(t *modsecurity.Transaction) []string {
-	if t == nil || t.URL == nil {
+	if t == nil {
 		return nil
 	}
 	return v.filter.Names(t.Request.Header)
-- 
2.43.0


From 2788dffc973ba98884ce3ed27306d28928f20512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 19/32] fix: a backslash that does not end the line does not
 hang the SecLang scanner

---
 seclang/parser/scanner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 7b8f4b2..04d8467 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -354,11 +354,11 @@ func (s *Scanner) SkipBlank() error {
 		case isBlank(s.current):
 			s.advance()
 		case s.current == '\\':
-			if s.next() == '\n' {
-				s.advance()             //skip '\\'
-				s.incrementLineNumber() // skip newlines
-
+			if !isNewLine(s.next()) {
+				return nil // not a line continuation
 			}
+			s.advance()             //skip '\\'
+			s.incrementLineNumber() // skip newlines
 		default:
 			return nil
 
-- 
2.43.0


From b8c86f63d26929fb36469609fec8c64fb9faa6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 20/32] fix: transformations keep bytes that are not valid
 UTF-8

---
 modsecurity/transforms/compress_whitespace.go |  4 +---
 modsecurity/transforms/lowercase.go           |  4 ++--
 modsecurity/transforms/map_rune.go            | 20 ++++++++++++++++++-
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/modsecurity/transforms/compress_whitespace.go b/modsecurity/transforms/compress_whitespace.go
index e5ed722..3f756ea 100644
--- a/modsecurity/transforms/compress_whitespace.go
+++ b/modsecurity/transforms/compress_whitespace.go
@@ -1,8 +1,6 @@
 package transforms
 
 import (
-	"strings"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -18,7 +16,7 @@ func (t *TransCompressWhitespace) Name() string {
 }
 func (t *TransCompressWhitespace) Trans(tr *modsecurity.Transaction, s string) string {
 	var previousIsSpace bool
-	return strings.Map(func(i rune) rune {
+	return mapRunes(func(i rune) rune {
 		if i == ' ' {
 			if previousIsSpace {
 				return -1
diff --git a/modsecurity/transforms/lowercase.go b/modsecurity/transforms/lowercase.go
index 7022a4e..f1cb4f8 100644
--- a/modsecurity/transforms/lowercase.go
+++ b/modsecurity/transforms/lowercase.go
@@ -1,7 +1,7 @@
 package transforms
 
 import (
-	"strings"
+	"unicode"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
@@ -16,5 +16,5 @@ func (*TransLowerCase) Name() string {
 	return "lowercase"
 }
 func (*TransLowerCase) Trans(tr *modsecurity.Transaction, s string) string {
-	return strings.ToLower(s)
+	return mapRunes(unicode.ToLower, s)
 }
diff --git a/modsecurity/transforms/map_rune.go b/modsecurity/transforms/map_rune.go
index 73ea7ca..0355c79 100644
--- a/modsecurity/transforms/map_rune.go
+++ b/modsecurity/transforms/map_rune.go
@@ -2,6 +2,7 @@ package transforms
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
@@ -45,5 +46,22 @@ func (t *TransMapRune) Name() string {
 	return t.name
 }
 func (t *TransMapRune) Trans(tr *modsecurity.Transaction, s string) string {
-	return strings.Map(t.mapping, s)
+	return mapRunes(t.mapping, s)
+}
+
+// mapRunes is strings.Map that keeps the bytes that are not valid UTF-8 as they are.
+func mapRunes(mapping func(rune) rune, s string) string {
+	var res strings.Builder
+	for i := 0; i < len(s); {
+		r, size := utf8.DecodeRuneInString(s[i:])
+		switch m := mapping(r); {
+		case m < 0: // dropped
+		case m == utf8.RuneError && size == 1:
+			res.WriteByte(s[i])
+		default:
+			res.WriteRune(m)
+		}
+		i += size
+	}
+	return res.String()
 }
-- 
2.43.0


From c9ca1eafbf02ee7f33e2b9137b6975eed1d2de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 21/32] fix: removeWhitespace and compressWhitespace treat
 every ASCII whitespace character

---
 modsecurity/transforms/compress_whitespace.go |  3 ++-
 modsecurity/transforms/map_rune.go            | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/modsecurity/transforms/compress_whitespace.go b/modsecurity/transforms/compress_whitespace.go
index 3f756ea..5992fd9 100644
--- a/modsecurity/transforms/compress_whitespace.go
+++ b/modsecurity/transforms/compress_whitespace.go
@@ -17,7 +17,8 @@ func (t *TransCompressWhitespace) Name() string {
 func (t *TransCompressWhitespace) Trans(tr *modsecurity.Transaction, s string) string {
 	var previousIsSpace bool
 	return mapRunes(func(i rune) rune {
-		if i == ' ' {
+		if isWhitespace(i) {
+			i = ' '
 			if previousIsSpace {
 				return -1
 			}
diff --git a/modsecurity/transforms/map_rune.go b/modsecurity/transforms/map_rune.go
index 0355c79..38dc104 100644
--- a/modsecurity/transforms/map_rune.go
+++ b/modsecurity/transforms/map_rune.go
@@ -14,8 +14,13 @@ type TransMapRune struct {
 
 func NewTransRemoveWhitespace() modsecurity.Trans {
 	return &TransMapRune{
-		name:    "removeWhitespace",
-		mapping: replaceRune(' ', -1),
+		name: "removeWhitespace",
+		mapping: func(i rune) rune {
+			if isWhitespace(i) {
+				return -1
+			}
+			return i
+		},
 	}
 }
 
@@ -33,6 +38,10 @@ func NewTransReplaceNulls() modsecurity.Trans {
 	}
 }
 
+func isWhitespace(i rune) bool {
+	return i == ' ' || '\t' <= i && i <= '\r'
+}
+
 func replaceRune(from, to rune) func(rune) rune {
 	return func(i rune) rune {
 		if i == from {
-- 
2.43.0


From 2f28d94b567bc0bcefcf05403df07c543fb87e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 22/32] fix: urlDecodeUni decodes the %uFFxx that are not full
 width ASCII to themselves

---
 utils/urlencode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/urlencode.go b/utils/urlencode.go
index 386e280..a4ba9eb 100644
--- a/utils/urlencode.go
+++ b/utils/urlencode.go
@@ -29,8 +29,8 @@ func urldecode(s string, uni bool) (string, int) {
 			c2 := rune(UnHex(s[i+4]))
 			c3 := rune(UnHex(s[i+5]))
 			v = c0<<4 | c1
-			if v == 0xff {
-				v = (c2<<4 | c3) + 0x20 // full width ascii offset
+			if low := c2<<4 | c3; v == 0xff && 0x01 <= low && low <= 0x5e {
+				v = low + 0x20 // full width ascii offset
 			} else {
 				v = v<<4 | c2
 				v = v<<4 | c3
-- 
2.43.0


From fbdcb63d1d590576eaa67a85afdc82af29243e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 23/32] fix: the numeric operators do not take a number beyond
 int64 for 0

---
 modsecurity/operators/compare.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modsecurity/operators/compare.go b/modsecurity/operators/compare.go
index e9873db..a0767af 100644
--- a/modsecurity/operators/compare.go
+++ b/modsecurity/operators/compare.go
@@ -1,6 +1,7 @@
 package operators
 
 import (
+	"errors"
 	"strconv"
 	"strings"
 
@@ -64,8 +65,8 @@ func (o *OperatorCompare) Args() string {
 func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
 	s = strings.TrimSpace(s)
 	v, err := strconv.ParseInt(s, 10, 64)
-	if err != nil {
-		v = 0
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
+		v = 0 // not a number, a number out of range is the closest int64
 	}
 	return o.fn(v, o.arg)
 }
-- 
2.43.0


From 21feb93f93bad54426afb28bbccf910d4ee9a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 24/32] fix: skip:N skips N rules

---
 modsecurity/actions/skip.go | 14 +++++++++++---
 seclang/actions.go          | 14 +++++++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/modsecurity/actions/skip.go b/modsecurity/actions/skip.go
index d08e718..36918f1 100644
--- a/modsecurity/actions/skip.go
+++ b/modsecurity/actions/skip.go
@@ -1,14 +1,22 @@
 package actions
 
 import (
+	"strconv"
+
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
 type ActionSkip struct {
+	count int
 }
 
 func NewActionSkip() modsecurity.Action {
-	return &ActionSkip{}
+	return NewActionSkipCount(1)
+}
+
+// NewActionSkipCount skips the next count rules.
+func NewActionSkipCount(count int) modsecurity.Action {
+	return &ActionSkip{count}
 }
 func (*ActionSkip) ActionGroup() int {
 	return modsecurity.ActionGroupFlow
@@ -18,9 +26,9 @@ func (*ActionSkip) Name() string {
 	return "skip"
 }
 func (a *ActionSkip) Value() string {
-	return ""
+	return strconv.Itoa(a.count)
 
 }
 func (a *ActionSkip) Do(t *modsecurity.Transaction) {
-	t.JumpTo(t.CurrentRule() + 2)
+	t.JumpTo(t.CurrentRule() + 1 + a.count)
 }
diff --git a/seclang/actions.go b/seclang/actions.go
index 7146592..4aa0cb3 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -17,7 +17,7 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 		factory: actionWrapper(actions.NewActionPass),
 	},
 	parser.TkActionSkip: &actionProcessor{
-		factory: actionWrapper(actions.NewActionSkip),
+		factory: actionSkip,
 	},
 	parser.TkActionLog: &actionProcessor{
 		factory: actionWrapper(actions.NewActionLog),
@@ -87,6 +87,18 @@ func actionWrapper(f func() modsecurity.Action) func(v *parser.Action) (modsecur
 	}
 }
 
+// actionSkip makes skip:N, a skip without argument skips one rule
+func actionSkip(v *parser.Action) (modsecurity.Action, error) {
+	if v.Argument == "" {
+		return actions.NewActionSkip(), nil
+	}
+	count, err := strconv.ParseUint(trimQuote(v.Argument), 10, 16)
+	if err != nil {
+		return nil, err
+	}
+	return actions.NewActionSkipCount(int(count)), nil
+}
+
 type actionProcessor struct {
 	meta    func(*parser.Action) (map[string]string, error)
 	factory func(*parser.Action) (modsecurity.Action, error)
-- 
2.43.0


From ec347223840dfc80fafbbda9ed4d7cb23fdac3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 25/32] fix: the numeric operators compare integers of any size

---
 modsecurity/operators/compare.go | 45 ++++++++++++++++----------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/modsecurity/operators/compare.go b/modsecurity/operators/compare.go
index a0767af..b651a2e 100644
--- a/modsecurity/operators/compare.go
+++ b/modsecurity/operators/compare.go
@@ -1,44 +1,44 @@
 package operators
 
 import (
-	"errors"
-	"strconv"
+	"fmt"
+	"math/big"
 	"strings"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
 func NewOperatorEq(arg string) (modsecurity.Operator, error) {
-	return newOperatorCompare("eq", arg, func(v int64, arg int64) bool {
-		return v == arg
+	return newOperatorCompare("eq", arg, func(cmp int) bool {
+		return cmp == 0
 	})
 }
 func NewOperatorGe(arg string) (modsecurity.Operator, error) {
-	return newOperatorCompare("ge", arg, func(v int64, arg int64) bool {
-		return v >= arg
+	return newOperatorCompare("ge", arg, func(cmp int) bool {
+		return cmp >= 0
 	})
 }
 func NewOperatorGt(arg string) (modsecurity.Operator, error) {
-	return newOperatorCompare("gt", arg, func(v int64, arg int64) bool {
-		return v > arg
+	return newOperatorCompare("gt", arg, func(cmp int) bool {
+		return cmp > 0
 	})
 }
 func NewOperatorLe(arg string) (modsecurity.Operator, error) {
-	return newOperatorCompare("le", arg, func(v int64, arg int64) bool {
-		return v <= arg
+	return newOperatorCompare("le", arg, func(cmp int) bool {
+		return cmp <= 0
 	})
 }
 func NewOperatorLt(arg string) (modsecurity.Operator, error) {
-	return newOperatorCompare("lt", arg, func(v int64, arg int64) bool {
-		return v < arg
+	return newOperatorCompare("lt", arg, func(cmp int) bool {
+		return cmp < 0
 	})
 }
 
-func newOperatorCompare(name, arg string, fn func(v, arg int64) bool) (modsecurity.Operator, error) {
+func newOperatorCompare(name, arg string, fn func(cmp int) bool) (modsecurity.Operator, error) {
 	arg = strings.TrimSpace(arg)
-	v, err := strconv.ParseInt(arg, 10, 64)
-	if err != nil {
-		return nil, err
+	v, ok := new(big.Int).SetString(arg, 10)
+	if !ok {
+		return nil, fmt.Errorf("%q is not an integer", arg)
 	}
 	return &OperatorCompare{
 		fn:        fn,
@@ -49,8 +49,8 @@ func newOperatorCompare(name, arg string, fn func(v, arg int64) bool) (modsecuri
 }
 
 type OperatorCompare struct {
-	fn        func(v, in int64) bool
-	arg       int64
+	fn        func(cmp int) bool // -1, 0, 1: the value is less than, equal to, greater than the argument
+	arg       *big.Int
 	argString string
 	name      string
 }
@@ -63,10 +63,9 @@ func (o *OperatorCompare) Args() string {
 }
 
 func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
-	s = strings.TrimSpace(s)
-	v, err := strconv.ParseInt(s, 10, 64)
-	if err != nil && !errors.Is(err, strconv.ErrRange) {
-		v = 0 // not a number, a number out of range is the closest int64
+	v, ok := new(big.Int).SetString(strings.TrimSpace(s), 10)
+	if !ok {
+		v = new(big.Int)
 	}
-	return o.fn(v, o.arg)
+	return o.fn(v.Cmp(o.arg))
 }
-- 
2.43.0


From 077d850c0ca6e51ee9a0b19b954a0091127de4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 26/32] fix: arguments of a query or body with more than 10000
 parameters are not dropped

---
 modsecurity/variables/args_get_names.go      |  8 +++-
 modsecurity/variables/args_gets.go           |  8 +++-
 modsecurity/variables/request_body_parser.go |  4 +-
 utils/query.go                               | 41 ++++++++++++++++++++
 4 files changed, 55 insertions(+), 6 deletions(-)
 create mode 100644 utils/query.go

diff --git a/modsecurity/variables/args_get_names.go b/modsecurity/variables/args_get_names.go
index b058028..84dc30f 100644
--- a/modsecurity/variables/args_get_names.go
+++ b/modsecurity/variables/args_get_names.go
@@ -1,6 +1,9 @@
 package variables
 
-import "github.com/senghoo/modsecurity-go/modsecurity"
+import (
+	"github.com/senghoo/modsecurity-go/modsecurity"
+	"github.com/senghoo/modsecurity-go/utils"
+)
 
 func NewVariableArgsGetNames() modsecurity.Variable {
 	return &VariableArgsGetNames{
@@ -19,5 +22,6 @@ func (v *VariableArgsGetNames) Fetch(t *modsecurity.Transaction) []string {
 	if t == nil || t.URL == nil {
 		return nil
 	}
-	return v.filter.Names(t.URL.Query())
+	args, _ := utils.ParseQuery(t.URL.RawQuery)
+	return v.filter.Names(args)
 }
diff --git a/modsecurity/variables/args_gets.go b/modsecurity/variables/args_gets.go
index 1db9eb5..e0a0bc3 100644
--- a/modsecurity/variables/args_gets.go
+++ b/modsecurity/variables/args_gets.go
@@ -1,6 +1,9 @@
 package variables
 
-import "github.com/senghoo/modsecurity-go/modsecurity"
+import (
+	"github.com/senghoo/modsecurity-go/modsecurity"
+	"github.com/senghoo/modsecurity-go/utils"
+)
 
 func NewVariableArgsGet() modsecurity.Variable {
 	return &VariableArgsGet{
@@ -19,5 +22,6 @@ func (v *VariableArgsGet) Fetch(t *modsecurity.Transaction) []string {
 	if t == nil || t.URL == nil {
 		return nil
 	}
-	return v.filter.Fetch(t.URL.Query())
+	args, _ := utils.ParseQuery(t.URL.RawQuery)
+	return v.filter.Fetch(args)
 }
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 8740665..a52858d 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -6,10 +6,10 @@ import (
 	"mime"
 	"mime/multipart"
 	"net/http"
-	"net/url"
 	"strings"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
+	"github.com/senghoo/modsecurity-go/utils"
 )
 
 const (
@@ -32,7 +32,7 @@ var parsers = map[int]*bodyParser{
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 				return nil, err
 			}
-			return url.ParseQuery(body)
+			return utils.ParseQuery(body)
 		},
 	},
 	bodyTypeMultipart: &bodyParser{
diff --git a/utils/query.go b/utils/query.go
new file mode 100644
index 0000000..edd5eb1
--- /dev/null
+++ b/utils/query.go
@@ -0,0 +1,41 @@
+package utils
+
+import (
+	"errors"
+	"net/url"
+	"strings"
+)
+
+// ParseQuery parses an urlencoded query or body like net/url does, but completely: net/url gives up on one with
+// more than 10000 parameters and returns none of them.
+func ParseQuery(query string) (url.Values, error) {
+	var err error
+	res := make(url.Values)
+	for query != "" {
+		pair := query
+		if i := strings.IndexByte(query, '&'); i >= 0 {
+			pair, query = query[:i], query[i+1:]
+		} else {
+			query = ""
+		}
+		if pair == "" {
+			continue
+		}
+		if strings.Contains(pair, ";") {
+			err = errors.New("invalid semicolon separator in query")
+			continue
+		}
+		name, value := pair, ""
+		if i := strings.IndexByte(pair, '='); i >= 0 {
+			name, value = pair[:i], pair[i+1:]
+		}
+		name, errName := url.QueryUnescape(name)
+		value, errValue := url.QueryUnescape(value)
+		if errName != nil || errValue != nil {
+			err = errors.New("invalid escape in query")
+			continue
+		}
+		res[name] = append(res[name], value)
+	}
+	return res, err
+}
-- 
2.43.0


From 2fc66dd9a5e5bf2bb8cc824440c2b80aaf4935c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 27/32] fix: a newline after an unquoted argument ends the
 directive

---
 seclang/parser/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 04d8467..df2c0a0 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -113,7 +113,9 @@ func (s *Scanner) readString(delimiter ...rune) (string, error) {
 		}
 	}
 
-	s.advance()
+	if isQuote(s.current) {
+		s.advance() // the blank or newline behind an unquoted string is not part of it
+	}
 	str := s.buffer.String()
 	s.buffer.Reset()
 	return str, nil
-- 
2.43.0


From 2998130994735dd9b05b8065dd054f7fc34ed1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 28/32] fix: a comma in a quoted action argument does not end
 the action

---
 seclang/parser/scanner.go |  7 +++++--
 seclang/parser/utils.go   | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index df2c0a0..b92a9f4 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -324,7 +324,10 @@ func (s *Scanner) ReadActions() (*Actions, error) {
 	if len(str) == 0 {
 		return nil, errors.New("expected actions bug got empty")
 	}
-	actions := strings.Split(str, ",")
+	actions, err := splitActions(str)
+	if err != nil {
+		return nil, err
+	}
 	for _, action := range actions {
 		err := processAction(res, action)
 		if err != nil {
@@ -343,7 +346,7 @@ func parseAction(act string) (int, string, error) {
 		return 0, "", fmt.Errorf("unknown action %s", s[0])
 	}
 	if len(s) > 1 {
-		arg = s[1]
+		arg = strings.TrimSpace(s[1])
 	}
 	return tk, arg, nil
 }
diff --git a/seclang/parser/utils.go b/seclang/parser/utils.go
index fd1363b..41761c4 100644
--- a/seclang/parser/utils.go
+++ b/seclang/parser/utils.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"fmt"
 	"strings"
 )
 
@@ -57,3 +58,38 @@ func splitMulti(s string, seps string) []string {
 	return res[:i+1]
 
 }
+
+// splitActions splits a list of actions at the commas that are not part of a quoted argument. A quoted argument ends
+// with the first quote that is followed by a comma or the end, so that it may contain (escaped) quotes itself.
+func splitActions(s string) ([]string, error) {
+	const blanks = " \t\n\v\f\r"
+	var res []string
+	for {
+		end := strings.IndexByte(s, ',')
+		if colon := strings.IndexByte(s, ':'); colon >= 0 && (end < 0 || colon < end) {
+			arg := strings.TrimLeft(s[colon+1:], blanks)
+			if len(arg) > 0 && isQuote(rune(arg[0])) {
+				closed := false
+				for i := len(s) - len(arg) + 1; i < len(s) && !closed; i++ {
+					if s[i] != arg[0] {
+						continue
+					}
+					rest := strings.TrimLeft(s[i+1:], blanks)
+					if rest == "" {
+						end, closed = -1, true
+					} else if rest[0] == ',' {
+						end, closed = len(s)-len(rest), true
+					}
+				}
+				if !closed {
+					return nil, fmt.Errorf("unterminated argument %s", arg)
+				}
+			}
+		}
+		if end < 0 {
+			return append(res, s), nil
+		}
+		res = append(res, s[:end])
+		s = s[end+1:]
+	}
+}
-- 
2.43.0


From 4ca35f46d8789f899a32674dbd6852875483e53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 29/32] fix: selectors and exclusions that cannot be applied
 are rejected instead of ignored

---
 seclang/parser/scanner.go |  3 +++
 seclang/variable.go       | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index b92a9f4..91f9a58 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -196,6 +196,9 @@ func (s *Scanner) ReadVariables() ([]*Variable, error) {
 		if i > 0 {
 			arg.Index = a[i+1:]
 			a = a[:i]
+			if arg.Index == "" {
+				return nil, fmt.Errorf("expected selector after %s", a)
+			}
 		}
 		tk, has := variableMap[a]
 		if !has {
diff --git a/seclang/variable.go b/seclang/variable.go
index 5408859..ea326bc 100644
--- a/seclang/variable.go
+++ b/seclang/variable.go
@@ -36,6 +36,22 @@ var variableFactorys map[int]VariableFactory = map[int]VariableFactory{
 	parser.TkVarResponseStatus:        variableNoArgErrWrapper(variables.NewVariableResponseStatus),
 }
 
+// variables that are collections, only these can be followed by a selector
+var collections = map[int]bool{
+	parser.TkVarArgs:                 true,
+	parser.TkVarArgsNames:            true,
+	parser.TkVarArgsGet:              true,
+	parser.TkVarArgsGetNames:         true,
+	parser.TkVarArgsPost:             true,
+	parser.TkVarArgsPostNames:        true,
+	parser.TkVarRequestCookies:       true,
+	parser.TkVarRequestCookiesNames:  true,
+	parser.TkVarRequestHeaders:       true,
+	parser.TkVarRequestHeadersNames:  true,
+	parser.TkVarResponseHeaders:      true,
+	parser.TkVarResponseHeadersNames: true,
+}
+
 func variableNoArgErrWrapper(f func() modsecurity.Variable) func(v *parser.Variable) (modsecurity.Variable, error) {
 	return func(v *parser.Variable) (modsecurity.Variable, error) {
 		return f(), nil
@@ -58,6 +74,12 @@ func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
 		if !has {
 			return fmt.Errorf("variable %d is not implemented", v.Tk)
 		}
+		if v.Index != "" && !collections[v.Tk] {
+			return fmt.Errorf("variable %d has no elements, cannot select %s", v.Tk, v.Index)
+		}
+		if v.Exclusion && v.Index == "" {
+			return fmt.Errorf("exclusion of variable %d without selector is not implemented", v.Tk)
+		}
 		if !v.Count {
 			if variable, has = varMap[v.Tk]; !has {
 				if variable, err = factory(v); err != nil {
-- 
2.43.0


From d0dd9213de2a26dd845028d28152db5142e22c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 30/32] fix: arguments of actions that take none are rejected
 instead of ignored

---
 seclang/actions.go        | 14 ++++++++++----
 seclang/parser/scanner.go |  3 +++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/seclang/actions.go b/seclang/actions.go
index 4aa0cb3..0efaa90 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -29,7 +29,7 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 		factory: actionNumArgWrapper(actions.NewActionStatus),
 	},
 	parser.TkActionAllow: &actionProcessor{
-		factory: actionArgWrapper(actions.NewActionAllow),
+		factory: actionAllow,
 	},
 	parser.TkActionTag: &actionProcessor{
 		meta: metaFactory("tag"),
@@ -66,10 +66,13 @@ func metaFactory(name string) func(*parser.Action) (map[string]string, error) {
 	}
 }
 
-func actionArgWrapper(f func(string) modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
-	return func(v *parser.Action) (modsecurity.Action, error) {
-		return f(trimQuote(v.Argument)), nil
+func actionAllow(v *parser.Action) (modsecurity.Action, error) {
+	arg := trimQuote(v.Argument)
+	switch arg {
+	case "", "phase", "request":
+		return actions.NewActionAllow(arg), nil
 	}
+	return nil, fmt.Errorf("unknown argument %s of allow", arg)
 }
 func actionNumArgWrapper(f func(int) modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
 	return func(v *parser.Action) (modsecurity.Action, error) {
@@ -83,6 +86,9 @@ func actionNumArgWrapper(f func(int) modsecurity.Action) func(v *parser.Action)
 
 func actionWrapper(f func() modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
 	return func(v *parser.Action) (modsecurity.Action, error) {
+		if v.Argument != "" {
+			return nil, fmt.Errorf("unexpected argument %s of action %d", v.Argument, v.Tk)
+		}
 		return f(), nil
 	}
 }
diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 91f9a58..ba64033 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -296,6 +296,9 @@ var actionProcessors = map[int]func(*Actions, string) error{
 		return
 	},
 	TkActionChain: func(a *Actions, arg string) (err error) {
+		if arg != "" {
+			return fmt.Errorf("unexpected argument %s of chain", arg)
+		}
 		a.Chain = true
 		return
 	},
-- 
2.43.0


From 8cf3f0eb1177a358fd7a4a2b155c1d75bbe2a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 31/32] fix: a Content-Type with bad parameters does not keep
 its body from being inspected

---
 modsecurity/variables/media_type.go           | 19 +++++++++++++++++++
 modsecurity/variables/request_body.go         |  3 +--
 modsecurity/variables/request_body_parser.go  |  3 +--
 .../variables/response_content_type.go        |  4 +---
 4 files changed, 22 insertions(+), 7 deletions(-)
 create mode 100644 modsecurity/variables/media_type.go

diff --git a/modsecurity/variables/media_type.go b/modsecurity/variables/media_type.go
new file mode 100644
index 0000000..b36cbbd
--- /dev/null
+++ b/modsecurity/variables/media_type.go
@@ -0,0 +1,19 @@
+package variables
+
+import (
+	"mime"
+	"strings"
+)
+
+// parseMediaType parses a Content-Type value. Its type counts also when its parameters
+// make no sense, otherwise they would decide whether a body is inspected at all.
+func parseMediaType(v string) (string, map[string]string) {
+	ct, params, err := mime.ParseMediaType(v)
+	if err != nil && ct == "" {
+		if i := strings.IndexByte(v, ';'); i >= 0 {
+			v = v[:i]
+		}
+		ct = strings.ToLower(strings.TrimSpace(v))
+	}
+	return ct, params
+}
diff --git a/modsecurity/variables/request_body.go b/modsecurity/variables/request_body.go
index 3813e1a..d05c211 100644
--- a/modsecurity/variables/request_body.go
+++ b/modsecurity/variables/request_body.go
@@ -1,7 +1,6 @@
 package variables
 
 import (
-	"mime"
 	"net/http"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
@@ -31,7 +30,7 @@ func (v *VariableRequestBody) Fetch(t *modsecurity.Transaction) []string {
 	if ct == "" {
 		return nil
 	}
-	ct, _, _ = mime.ParseMediaType(ct)
+	ct, _ = parseMediaType(ct)
 	if ct != "application/x-www-form-urlencoded" {
 		return nil
 	}
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index a52858d..804d4c4 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -3,7 +3,6 @@ package variables
 import (
 	"fmt"
 	"io"
-	"mime"
 	"mime/multipart"
 	"net/http"
 	"strings"
@@ -76,7 +75,7 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
-	ct, params, _ := mime.ParseMediaType(ct)
+	ct, params := parseMediaType(ct)
 	for _, tp := range types {
 		parser, has := parsers[tp]
 		if !has {
diff --git a/modsecurity/variables/response_content_type.go b/modsecurity/variables/response_content_type.go
index 8ad8acb..3ffd7a5 100644
--- a/modsecurity/variables/response_content_type.go
+++ b/modsecurity/variables/response_content_type.go
@@ -1,8 +1,6 @@
 package variables
 
 import (
-	"mime"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -23,6 +21,6 @@ func (*VariableResponseContentType) Fetch(t *modsecurity.Transaction) []string {
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
-	ct, _, _ = mime.ParseMediaType(ct)
+	ct, _ = parseMediaType(ct)
 	return []string{ct}
 }
-- 
2.43.0


From 432af0855c06e01f0ebb62f7a83096b8e92074d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 32/32] fix: an engine switched off within a phase evaluates no
 further rule

---
 modsecurity/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index d3375f8..749009d 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -170,7 +170,7 @@ func (t *Transaction) processPhase(phase int) {
 		return
 	}
 	next := t.Next()
-	for ; t.currentPhase == phase && next != StatusEndOfRules; next = t.Next() {
+	for ; t.currentPhase == phase && next != StatusEndOfRules && !t.Engine.off(); next = t.Next() {
 		t.RuleSet.Process(t, phase, next)
 		if t.Intervention().Disruptive {
 			logrus.Debug("skiping this phase, already intercepted")
-- 
2.43.0

