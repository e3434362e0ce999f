------------------------------ MODULE SecLang ------------------------------
(***************************************************************************)
(* The rule language: from the bytes of a text to directives (C20), from a *)
(* SecRule to a rule (C21), from a text to the rules and settings of an    *)
(* engine (C22).  The state is what the directive sets hold and what the   *)
(* engines were given; loading and executing are its steps.                *)
(***************************************************************************)
EXTENDS Vars, Fn

VARIABLES
  rxs,   \* the regular expressions whose meaning is known: Seq of [s: text, ok: is an expression, tree]
  dsets, \* directive sets: Seq of Seq of directive
  engs   \* engines: Seq of [rules, mode, reqacc, resacc]
lvars == <<rxs, dsets, engs>>

(* text as bytes *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |-> 31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c] @@ ("\n" :> 10)
Asc(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
ByText(names) == [b \in {Asc(n) : n \in names} |-> CHOOSE n \in names : Asc(n) = b]

----------------------------------------------------------------------------
(* 1. scanning *)

EOS == -1
At(t, i) == IF i <= Len(t) THEN t[i] ELSE EOS
Blank == {32, 9, 11, 12}
NewLine == {10, 13}
Quote == {34, 39}
Alphabetic(c) == IsUpper(c) \/ IsLower(c)

(* two different newline bytes in a row are one newline *)
AfterNewLine(t, i) == IF At(t, i + 1) \in NewLine /\ t[i + 1] # t[i] THEN i + 2 ELSE i + 1

(* blanks and line continuations *)
RECURSIVE SkipBlank(_, _)
SkipBlank(t, i) == IF At(t, i) \in Blank THEN SkipBlank(t, i + 1)
                   ELSE IF At(t, i) = 92 /\ At(t, i + 1) \in NewLine THEN SkipBlank(t, AfterNewLine(t, i + 1))
                   ELSE i

Unescape(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c

NoArg == [ok |-> FALSE, s |-> <<>>, next |-> 0]
(* the argument text from i to the first byte of stop that is not escaped *)
RECURSIVE ArgText(_, _, _, _)
ArgText(t, i, stop, acc) ==
  LET c == At(t, i) IN
  IF c \in stop THEN [ok |-> TRUE, s |-> acc, next |-> IF c \in Quote THEN i + 1 ELSE i]
  ELSE IF c = EOS \/ c \in NewLine THEN NoArg
  ELSE IF c # 92 THEN ArgText(t, i + 1, stop, Append(acc, c))
  ELSE IF At(t, i + 1) = EOS THEN NoArg
  ELSE IF t[i + 1] \in NewLine THEN ArgText(t, AfterNewLine(t, i + 1), stop, Append(acc, 10))
  ELSE ArgText(t, i + 2, stop, Append(acc, Unescape(t[i + 1])))

(* the argument at i; none if the line or the text ends before one, or if it is empty *)
Arg(t, i0) ==
  LET i == SkipBlank(t, i0)
      a == IF At(t, i) \in Quote THEN ArgText(t, i + 1, {t[i]}, <<>>) ELSE ArgText(t, i, Blank \cup NewLine \cup {EOS}, <<>>)
  IN IF At(t, i) = EOS \/ At(t, i) \in NewLine \/ ~a.ok \/ a.s = <<>> THEN NoArg ELSE a

RECURSIVE WordEnd(_, _)
WordEnd(t, i) == IF At(t, i) # EOS /\ Alphabetic(t[i]) THEN WordEnd(t, i + 1) ELSE i

DirectiveNames == {"secrule", "secruleengine", "secrequestbodyaccess", "secresponsebodyaccess"}
DirectiveOf == ByText(DirectiveNames)

NoScan == [ok |-> FALSE, ds |-> <<>>]
RECURSIVE ScanFrom(_, _, _)
ScanFrom(t, i, ds) ==
  LET e == WordEnd(t, i)
      w == LowerS(SubSeq(t, i, e - 1))
      a1 == Arg(t, e)
      a2 == Arg(t, a1.next)
      a3 == Arg(t, a2.next)
  IN IF At(t, i) = EOS THEN [ok |-> TRUE, ds |-> ds]
     ELSE IF t[i] \in Blank \cup NewLine \cup {0} THEN ScanFrom(t, i + 1, ds)
     ELSE IF w \notin DOMAIN DirectiveOf THEN NoScan
     ELSE IF DirectiveOf[w] = "secrule"
          THEN IF a1.ok /\ a2.ok /\ a3.ok THEN ScanFrom(t, a3.next, Append(ds, [d |-> "secrule", args |-> <<a1.s, a2.s, a3.s>>])) ELSE NoScan
          ELSE IF a1.ok THEN ScanFrom(t, a1.next, Append(ds, [d |-> DirectiveOf[w], args |-> <<a1.s>>])) ELSE NoScan
Scan(t) == ScanFrom(t, 1, <<>>)

----------------------------------------------------------------------------
(* 2. compiling; a part is "ok", in "err", or "?" where a regular expression is not known *)

Worst(S) == IF "err" \in S THEN "err" ELSE IF "?" \in S THEN "?" ELSE "ok"

(* regular expressions: from the dictionary, or a text without special characters *)
PlainRx(s) == \A i \in DOMAIN s : s[i] < 128 /\ s[i] \notin Meta
RxEntry(s) == {i \in DOMAIN rxs : rxs[i].s = s}
RxStatus(s) == IF RxEntry(s) # {} THEN (IF rxs[CHOOSE i \in RxEntry(s) : TRUE].ok THEN "ok" ELSE "err")
               ELSE IF PlainRx(s) THEN "ok" ELSE "?"
LitTree(s) == [k |-> "cat", l |-> [i \in DOMAIN s |-> [k |-> "lit", c |-> s[i]]]]
RxTree(s) == IF RxEntry(s) # {} THEN rxs[CHOOSE i \in RxEntry(s) : TRUE].tree ELSE LitTree(s)

(* integers as the language writes them: a sign and digits; their range is that of 64 bits *)
SignedDigits(s) == LET d == Unsigned(s) IN d # <<>> /\ \A i \in DOMAIN d : IsDigit(d[i])
Max64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
Min64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
IsInt64(s) == SignedDigits(s) /\ LET n == Num(s) IN CmpDigits(n.d, IF n.neg THEN Min64 ELSE Max64) <= 0
NumText(s) == LET n == Num(s) IN IF n.d = <<>> THEN <<48>> ELSE (IF n.neg THEN <<45>> ELSE <<>>) \o n.d
RECURSIVE SmallVal(_)
SmallVal(d) == IF d = <<>> THEN 0 ELSE SmallVal(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
(* its value as far as it matters: beyond nine digits any number will do *)
IntVal(s) == LET n == Num(s) IN IF Len(n.d) > 9 THEN (IF n.neg THEN -1000000000 ELSE 1000000000) ELSE IF n.neg THEN -SmallVal(n.d) ELSE SmallVal(n.d)

VarNames == {"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "QUERY_STRING", "REMOTE_ADDR", "REQUEST_BASENAME",
  "REQUEST_BODY", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_FILENAME", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "REQUEST_METHOD",
  "REQUEST_PROTOCOL", "REQUEST_URI", "RESPONSE_BODY", "RESPONSE_CONTENT_LENGTH", "RESPONSE_CONTENT_TYPE", "RESPONSE_HEADERS",
  "RESPONSE_HEADERS_NAMES", "RESPONSE_PROTOCOL", "RESPONSE_STATUS"}
VarOf == ByText(VarNames)

RECURSIVE SplitAny(_, _)
SplitAny(s, cs) == LET i == IndexOf(s, cs) IN IF i > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitAny(Drop(s, i), cs)

(* a selector: /expression/ or an exact name *)
SelIsRx(s) == Len(s) >= 2 /\ s[1] = 47 /\ s[Len(s)] = 47
SelRx(s) == SubSeq(s, 2, Len(s) - 1)
Selector(s) == IF SelIsRx(s) THEN [re |-> TRUE, s |-> s, tree |-> RxTree(SelRx(s))] ELSE [re |-> FALSE, s |-> s, tree |-> [k |-> "any"]]

VarPart(p) ==
  LET excl == p # <<>> /\ p[1] = 33
      count == p # <<>> /\ p[1] = 38
      a == IF excl \/ count THEN Tail(p) ELSE p
      i == IndexOf(a, {46, 58})
      hassel == i > 1 /\ i <= Len(a)
      name == IF hassel THEN SubSeq(a, 1, i - 1) ELSE a
      s == Drop(a, i)
      known == name \in DOMAIN VarOf
      st == IF ~known \/ (excl /\ ~hassel) THEN "err"
            ELSE IF ~hassel THEN "ok"
            ELSE IF s = <<>> \/ VarOf[name] \notin Collections THEN "err"
            ELSE IF SelIsRx(s) THEN RxStatus(SelRx(s)) ELSE "ok"
  IN [st |-> st, v |-> IF known THEN VarOf[name] ELSE "", count |-> count, excl |-> excl, hassel |-> hassel, s |-> s]

(* what is written for one collection is one selection, separately for the plain and the counting form *)
Selections(ps) ==
  LET keys == Names([i \in DOMAIN ps |-> <<<<ps[i].v, ps[i].count>>, i>>])
      mine(k, excl) == SelectSeq(ps, LAMBDA p : p.v = k[1] /\ p.count = k[2] /\ p.hassel /\ p.excl = excl)
  IN [i \in DOMAIN keys |-> [v |-> keys[i][1], count |-> keys[i][2],
        inc |-> LET q == mine(keys[i], FALSE) IN [j \in DOMAIN q |-> Selector(q[j].s)],
        exc |-> LET q == mine(keys[i], TRUE) IN [j \in DOMAIN q |-> Selector(q[j].s)],
        known |-> \A j \in DOMAIN ps : ps[j].v = keys[i][1] => ps[j].st # "?"]]
CompileVars(s) ==
  LET ps == [i \in DOMAIN SplitAny(s, {44, 124}) |-> VarPart(SplitAny(s, {44, 124})[i])]
      st == Worst({ps[i].st : i \in DOMAIN ps})
  IN [st |-> st, vars |-> IF st = "err" THEN <<>> ELSE Selections(ps)]

(* operator *)
OpNames == {"rx", "eq", "ge", "gt", "le", "lt"}
OpOf == ByText(OpNames)
CompileOp(s0) ==
  LET not == s0[1] = 33
      s == IF not THEN Tail(s0) ELSE s0
      named == s # <<>> /\ s[1] = 64
      i == IndexOf(s, {32})
      name == SubSeq(s, 2, i - 1)
      arg == IF named THEN Drop(s, i) ELSE s
      k == IF ~named THEN "rx" ELSE IF name \in DOMAIN OpOf THEN OpOf[name] ELSE ""
      st == IF s = <<>> \/ k = "" THEN "err"
            ELSE IF k = "rx" THEN RxStatus(arg)
            ELSE IF IsInteger(arg) THEN "ok" ELSE "err"
  IN [st |-> st, not |-> not, op |-> [k |-> k, arg |-> arg, known |-> st = "ok",
      re |-> IF k = "rx" /\ st = "ok" THEN RxTree(arg) ELSE [k |-> "any"]]]

(* actions: separated by the commas outside quoted arguments *)
RECURSIVE QuoteEnd(_, _, _)
(* where the quoted argument that began before i ends: at the first quote that only a comma or the end follows *)
QuoteEnd(s, i, q) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = q /\ (TrimLeft(Drop(s, i)) = <<>> \/ TrimLeft(Drop(s, i))[1] = 44) THEN i
  ELSE QuoteEnd(s, i + 1, q)
RECURSIVE SplitActions(_)
SplitActions(s) ==
  LET comma == IndexOf(s, {44})
      colon == IndexOf(s, {58})
      arg == TrimLeft(Drop(s, colon))
      quoted == colon < comma /\ arg # <<>> /\ arg[1] \in Quote
      qe == QuoteEnd(s, Len(s) - Len(arg) + 2, arg[1])
      e == IF quoted THEN qe + IndexOf(Drop(s, qe), {44}) ELSE comma
  IN IF quoted /\ qe = 0 THEN [ok |-> FALSE, ps |-> <<>>]
     ELSE IF e > Len(s) THEN [ok |-> TRUE, ps |-> <<s>>]
     ELSE LET r == SplitActions(Drop(s, e)) IN [ok |-> r.ok, ps |-> <<SubSeq(s, 1, e - 1)>> \o r.ps]

ActionNames == {"allow", "msg", "id", "tag", "rev", "ver", "log", "deny", "block", "status", "phase", "t", "skip", "chain", "pass"}
Unsupported == {"severity", "logdata", "setvar", "capture"}
ActionOf == ByText(ActionNames)
TransNames == {"lowercase", "urlDecode", "urlDecodeUni", "none", "compressWhitespace", "removeWhitespace", "replaceNulls", "removeNulls"}
TransOf == ByText(TransNames)
PhaseWords == ByText({"request", "response", "logging"})
AllowWords == ByText({"", "phase", "request"})

Unquote(s) == IF Len(s) >= 2 /\ s[1] \in Quote /\ s[Len(s)] \in Quote THEN SubSeq(s, 2, Len(s) - 1) ELSE s
(* the phase a word names, 0 if none; the numbers are the rule language's *)
PhaseOf(s) == IF s \in DOMAIN PhaseWords
              THEN (CASE PhaseWords[s] = "request" -> 2 [] PhaseWords[s] = "response" -> 4 [] PhaseWords[s] = "logging" -> 5)
              ELSE IF IsInt64(s) /\ IntVal(s) \in 1..5 THEN IntVal(s) ELSE 0
IsSkipCount(s) == s # <<>> /\ (\A i \in DOMAIN s : IsDigit(s[i])) /\ CmpDigits(NoZeros(s), <<54,53,53,51,53>>) <= 0

ActPart(p) ==
  LET i == IndexOf(p, {58})
      name == Trim(SubSeq(p, 1, i - 1))
      arg == Trim(Drop(p, i))
      k == IF name \in DOMAIN ActionOf THEN ActionOf[name] ELSE ""
      u == Unquote(arg)
      ok == CASE k = "" -> FALSE
              [] k \in {"msg", "tag", "rev", "ver"} -> TRUE
              [] k \in {"id", "status"} -> IsInt64(u)
              [] k = "phase" -> PhaseOf(u) # 0
              [] k = "t" -> u \in DOMAIN TransOf
              [] k \in {"deny", "log", "block", "pass", "chain"} -> arg = <<>>
              [] k = "allow" -> u \in DOMAIN AllowWords
              [] k = "skip" -> arg = <<>> \/ IsSkipCount(u)
  IN [ok |-> ok, k |-> k, u |-> u]

(* an action as Txn.tla knows it, with the value it is shown with *)
ActionFor(p) == CASE p.k = "status" -> [k |-> "status", n |-> IntVal(p.u), s |-> "", val |-> NumText(p.u)]
                  [] p.k = "skip" -> IF p.u = <<>> THEN [k |-> "skip", n |-> 1, s |-> "", val |-> <<49>>] ELSE [k |-> "skip", n |-> IntVal(p.u), s |-> "", val |-> NumText(p.u)]
                  [] p.k = "allow" -> [k |-> "allow", n |-> 0, s |-> AllowWords[p.u], val |-> p.u]
                  [] OTHER -> [k |-> p.k, n |-> 0, s |-> "", val |-> <<>>]
LastOf(ps, k, f(_), default) == LET q == SelectSeq(ps, LAMBDA p : p.k = k) IN IF q = <<>> THEN default ELSE f(q[Len(q)])
Executed == {"deny", "log", "block", "pass", "allow", "status", "skip"}
CompileActions(s0) ==
  LET s == Trim(s0)
      sp == SplitActions(s)
      ps == [i \in DOMAIN sp.ps |-> ActPart(sp.ps[i])]
      all(k) == SelectSeq(ps, LAMBDA p : p.k = k)
      acts == SelectSeq(ps, LAMBDA p : p.k \in Executed)
      texts(k) == [i \in DOMAIN all(k) |-> all(k)[i].u]
  IN IF s = <<>> \/ ~sp.ok \/ \E i \in DOMAIN ps : ~ps[i].ok THEN [st |-> "err"]
     ELSE [st |-> "ok", id |-> LastOf(ps, "id", LAMBDA p : NumText(p.u), <<48>>), ph |-> LastOf(ps, "phase", LAMBDA p : PhaseOf(p.u), 2),
           tr |-> [i \in DOMAIN all("t") |-> TransOf[all("t")[i].u]],
           acts |-> [i \in DOMAIN acts |-> ActionFor(acts[i])],
           meta |-> [m \in {"tag", "msg", "rev", "ver"} |-> texts(m)],
           chain |-> all("chain") # <<>>]

CompileRule(args) ==
  LET v == CompileVars(args[1])
      o == CompileOp(args[2])
      a == CompileActions(args[3])
      st == Worst({v.st, o.st, a.st})
  IN IF st = "err" THEN [st |-> "err"]
     ELSE [st |-> st, d |-> "rule", id |-> a.id, ph |-> a.ph, tr |-> a.tr, acts |-> a.acts, meta |-> a.meta, chain |-> a.chain,
           vars |-> v.vars, not |-> o.not, op |-> o.op, subs |-> <<>>]

----------------------------------------------------------------------------
(* 3. texts *)

OnOff == [b \in {Asc("on"), Asc("off"), Asc("detectiononly")} |-> IF b = Asc("on") THEN 0 ELSE IF b = Asc("off") THEN 1 ELSE 2]
CompileSetting(d) ==
  LET w == LowerS(d.args[1])
      st == IF w \in DOMAIN OnOff /\ (OnOff[w] = 2 => d.d = "secruleengine") THEN "ok" ELSE "err"
  IN [st |-> st, d |-> d.d, v |-> IF st = "ok" THEN OnOff[w] ELSE 0]
CompileDirective(d) == IF d.d = "secrule" THEN CompileRule(d.args) ELSE CompileSetting(d)

(* rules marked chain take the rules behind them in, up to the first one not marked or the end of the text;
   open: position of the first rule of the chain *)
RECURSIVE Chained(_, _, _)
Chained(ds, res, open) ==
  IF ds = <<>> THEN res
  ELSE LET d == Head(ds) IN
       IF d.d # "rule" THEN Chained(Tail(ds), Append(res, d), open)
       ELSE IF open > 0 THEN Chained(Tail(ds), [res EXCEPT ![open].subs = Append(@, d)], IF d.chain THEN open ELSE 0)
       ELSE Chained(Tail(ds), Append(res, d), IF d.chain THEN Len(res) + 1 ELSE 0)

Meaning(t) ==
  LET sc == Scan(t)
      ds == [i \in DOMAIN sc.ds |-> CompileDirective(sc.ds[i])]
      st == IF ~sc.ok THEN "err" ELSE Worst({ds[i].st : i \in DOMAIN ds})
  IN [st |-> st, ds |-> IF st = "err" THEN <<>> ELSE Chained(ds, <<>>, 0)]

----------------------------------------------------------------------------
(* steps *)

NewEngine == [rules |-> <<>>, mode |-> 0, reqacc |-> FALSE, resacc |-> FALSE]
LInit(rx, ndsets, nengs) ==
  /\ rxs = rx /\ dsets = [i \in 1..ndsets |-> <<>>] /\ engs = [i \in 1..nengs |-> NewEngine]

(* adding a text to a set: all of it or nothing; ok is what the caller is told *)
AddText(i, t, ok) ==
  \E m \in {Meaning(t)} :
  /\ IF ok THEN m.st # "err" ELSE m.st # "ok"
  /\ dsets' = IF ok THEN [dsets EXCEPT ![i] = @ \o m.ds] ELSE dsets
  /\ UNCHANGED <<rxs, engs>>

RECURSIVE Apply2(_, _)
Apply2(e, ds) ==
  IF ds = <<>> THEN e
  ELSE LET d == Head(ds) IN
       Apply2(CASE d.d = "rule" -> [e EXCEPT !.rules = Append(@, d)]
                [] d.d = "secruleengine" -> [e EXCEPT !.mode = d.v]
                [] d.d = "secrequestbodyaccess" -> [e EXCEPT !.reqacc = (d.v = 0)]
                [] d.d = "secresponsebodyaccess" -> [e EXCEPT !.resacc = (d.v = 0)], Tail(ds))
Execute(i, e) == engs' = [engs EXCEPT ![e] = Apply2(@, dsets[i])] /\ UNCHANGED <<rxs, dsets>>
=============================================================================
