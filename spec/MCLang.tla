------------------------------- MODULE MCLang -------------------------------
(* What the rule language has to satisfy, checked on the specification for all small arguments, layouts and texts: C20-C22. *)
EXTENDS SecLang
CONSTANTS Alpha, MaxLen, MaxLen2, Family

VARIABLES x
mv == <<vvars, lvars, x>>

Strings(k) == UNION {[1..n -> Alpha] : n \in 0..k}
Escaped(s, q) == Flat([i \in DOMAIN s |-> IF s[i] \in {q, 92} THEN <<92, s[i]>> ELSE IF s[i] = 10 THEN <<92, 110>> ELSE IF s[i] = 13 THEN <<92, 114>> ELSE <<s[i]>>])
Quoted(s, q) == <<q>> \o Escaped(s, q) \o <<q>>
Bare(s) == Flat([i \in DOMAIN s |-> IF s[i] = 10 THEN <<92, 110>> ELSE IF s[i] = 13 THEN <<92, 114>> ELSE IF s[i] \in Blank \cup {92} \cup Quote THEN <<92, s[i]>> ELSE <<s[i]>>])
Written(s, w) == CASE w = 1 -> Quoted(s, 34) [] w = 2 -> Quoted(s, 39) [] w = 3 -> Bare(s)
Gaps == {<<32>>, <<9, 32>>, <<92, 10>>, <<92, 13, 10>>, <<32, 92, 10, 32>>, <<92, 10, 92, 10>>}
LineEnds == {<<>>, <<10>>, <<13, 10>>, <<32, 10>>}
Off == Asc("SecRuleEngine Off")

Init ==
  /\ VInit([reqacc |-> TRUE, resacc |-> TRUE, mp |-> <<>>], 0, 0, 0)
  /\ LInit(<<>>, 1, 1)
  /\ CASE Family = "scan" -> \E s1 \in Strings(MaxLen), s2 \in Strings(1), g \in Gaps, w1 \in 1..3, w2 \in 1..3, e \in LineEnds : x = [s1 |-> s1, s2 |-> s2, g |-> g, w1 |-> w1, w2 |-> w2, e |-> e]
       [] Family = "text" -> \E s \in Strings(MaxLen), pre \in {Asc("SecRuleEngine"), Asc("SecRule ARGS a"), Asc("SecRule ARGS "), <<>>}, post \in {<<>>, Asc("Off"), Asc(" Off"), Asc(" id:1")} : x = pre \o s \o post
       [] Family = "vars" -> \E n \in Collections, f \in [1..MaxLen -> 1..8] : x = [n |-> n, f |-> f]
       [] Family = "load" -> \E n \in 0..MaxLen, m \in 0..MaxLen2 : \E f \in [1..n -> 1..6], g \in [1..m -> 1..6] : x = <<f, g>>

(* C20: every argument is read back exactly, in every position, way of writing and layout *)
RoundTrip == Family = "scan" =>
  LET after(w) == IF w = 3 THEN <<32>> \o x.g ELSE x.g   \* a backslash directly behind an unquoted argument belongs to it
      t == Asc("SecRule") \o x.g \o Written(x.s1, x.w1) \o after(x.w1) \o Written(x.s2, x.w2) \o after(x.w2) \o Asc("id:1") \o x.e
      t2 == Asc("SecRule") \o x.g \o Written(x.s2, x.w2) \o after(x.w2) \o Asc("a") \o after(3) \o Written(x.s1, x.w1) \o x.e
      rule(a) == [d |-> "secrule", args |-> a]
      expect(a) == IF \E i \in DOMAIN a : a[i] = <<>> THEN NoScan ELSE [ok |-> TRUE, ds |-> <<rule(a)>>]
  IN (x.s1 # <<>> /\ x.s2 # <<>>) => Scan(t) = expect(<<x.s1, x.s2, Asc("id:1")>>) /\ Scan(t2) = expect(<<x.s2, Asc("a"), x.s1>>)

(* C20: nothing behind an accepted text is lost, nothing behind a rejected one is accepted, CRLF is LF *)
NeverCutShort == Family = "text" =>
  LET sc == Scan(x) IN
  /\ sc.ok => Scan(x \o <<10>> \o Off).ds = Append(sc.ds, [d |-> "secruleengine", args |-> <<Asc("Off")>>])
  /\ \A i \in DOMAIN sc.ds : \A j \in DOMAIN sc.ds[i].args : sc.ds[i].args[j] # <<>>
Total == Family = "text" => Scan(x).ok \in BOOLEAN /\ (~Scan(x).ok => Meaning(x).st = "err")
RECURSIVE Crlf(_)
Crlf(t) == Flat([i \in DOMAIN t |-> IF t[i] = 10 THEN <<13, 10>> ELSE <<t[i]>>])
CrlfIsLf == Family = "text" /\ 13 \notin Range(x) => Scan(Crlf(x)) = Scan(x)

(* C21: what is written for one collection is one selection, whatever the order of the parts, and the forms do not mix *)
Part(n, k) == CASE k = 1 -> Asc(n) [] k = 2 -> Asc(n) \o Asc(":a") [] k = 3 -> Asc(n) \o Asc(":/b/") [] k = 4 -> <<33>> \o Asc(n) \o Asc(":a")
                [] k = 5 -> <<38>> \o Asc(n) [] k = 6 -> <<38>> \o Asc(n) \o Asc(":a") [] k = 7 -> Asc("ARGS_GET:c") [] k = 8 -> Asc("REMOTE_ADDR")
Parts(n, f) == Join([i \in DOMAIN f |-> Part(n, f[i])], <<124>>)
ParsAs(v) == {[v |-> w.v, count |-> w.count, inc |-> Range(w.inc), exc |-> Range(w.exc)] : w \in Range(v.vars)}
OneSelection == Family = "vars" =>
  LET v == CompileVars(Parts(x.n, x.f))
      mirrored == CompileVars(Parts(x.n, [i \in DOMAIN x.f |-> x.f[Len(x.f) + 1 - i]]))
      mine(c) == {w \in Range(v.vars) : w.v = x.n /\ w.count = c}
  IN /\ v.st = "ok" /\ Cardinality(mine(TRUE)) <= 1 /\ Cardinality(mine(FALSE)) <= 1
     /\ ParsAs(v) = ParsAs(mirrored)
     /\ \A c \in BOOLEAN : (mine(c) # {}) = (\E i \in DOMAIN x.f : x.f[i] \in (IF c THEN {5, 6} ELSE {1, 2, 3, 4}) \/ (x.n = "ARGS_GET" /\ ~c /\ x.f[i] = 7))
     /\ \A w \in mine(TRUE) : w.exc = <<>>

(* C22 *)
Dir(k, i) == CASE k = 1 -> Asc("SecRule ARGS_GET a id:") \o Dec(i) \o <<10>>
               [] k = 2 -> Asc("SecRule ARGS_GET a id:") \o Dec(i) \o Asc(",phase:3,chain\n")
               [] k = 3 -> Asc("SecRuleEngine DetectionOnly\n")
               [] k = 4 -> Asc("SecRuleEngine On\n")
               [] k = 5 -> Asc("SecRequestBodyAccess On\n")
               [] k = 6 -> Asc("SecRule ARGS_GET a deny:x\n")
Dirs(f, from) == Flat([i \in DOMAIN f |-> Dir(f[i], from + i)])
RulesIn(f) == SelectSeq([i \in DOMAIN f |-> [k |-> f[i], id |-> Dec(i)]], LAMBDA d : d.k \in {1, 2, 6})
OpenEnd(f) == RulesIn(f) # <<>> /\ RulesIn(f)[Len(RulesIn(f))].k = 2
Flattened(ds) == Flat([i \in DOMAIN ds |-> IF ds[i].d = "rule" THEN <<ds[i].id>> \o [j \in DOMAIN ds[i].subs |-> ds[i].subs[j].id] ELSE <<>>])
AllOrNothing == Family = "load" =>
  LET m == Meaning(Dirs(x[1], 0)) IN
  IF 6 \in Range(x[1]) THEN m.st = "err" /\ m.ds = <<>>
  ELSE /\ m.st = "ok"
       /\ Flattened(m.ds) = [i \in DOMAIN RulesIn(x[1]) |-> RulesIn(x[1])[i].id]   \* all of them, in text order
       /\ \A i \in DOMAIN m.ds : m.ds[i].d = "rule" =>
            LET c == <<m.ds[i]>> \o m.ds[i].subs IN
            /\ \A j \in 1..(Len(c) - 1) : c[j].chain                                \* all but the last are marked chain
            /\ (c[Len(c)].chain => OpenEnd(x[1]) /\ c[Len(c)].id = Dec(CHOOSE q \in DOMAIN x[1] : x[1][q] = 2 /\ \A r \in DOMAIN x[1] : x[1][r] \in {1, 2} => r <= q))
            /\ m.ds[i].ph = (IF m.ds[i].chain THEN 3 ELSE 2)
Concatenation == Family = "load" =>
  LET m1 == Meaning(Dirs(x[1], 0))  m2 == Meaning(Dirs(x[2], Len(x[1])))  m == Meaning(Dirs(x[1], 0) \o Dirs(x[2], Len(x[1]))) IN
  /\ (m.st = "err") = (m1.st = "err" \/ m2.st = "err")
  /\ m.st = "ok" /\ ~OpenEnd(x[1]) => m.ds = m1.ds \o m2.ds /\ Apply2(NewEngine, m.ds) = Apply2(Apply2(NewEngine, m1.ds), m2.ds)
InOrder == Family = "load" /\ 6 \notin Range(x[1]) =>
  LET ds == Meaning(Dirs(x[1], 0)).ds IN Apply2(NewEngine, ds).rules = SelectSeq(ds, LAMBDA d : d.d = "rule")
LastWins == Family = "load" /\ 6 \notin Range(x[1]) =>
  LET e == Apply2(NewEngine, Meaning(Dirs(x[1], 0)).ds)
      q == SelectSeq(x[1], LAMBDA k : k \in {3, 4})
  IN e.mode = (IF q = <<>> \/ q[Len(q)] = 4 THEN 0 ELSE 2) /\ e.reqacc = (5 \in Range(x[1])) /\ ~e.resacc

(* the steps: loading the two texts one after the other; an error leaves everything as it was *)
Text1 == Dirs(x[1], 0)  Text2 == Dirs(x[2], Len(x[1]))
Next == /\ Family = "load" /\ UNCHANGED <<vvars, x>>
        /\ \/ \E ok \in BOOLEAN : dsets[1] = <<>> /\ AddText(1, Text1, ok)
           \/ \E ok \in BOOLEAN : AddText(1, Text2, ok) /\ Len(dsets[1]) < 3
           \/ Execute(1, 1) /\ engs[1].rules = <<>>
Atomic == [][\A i \in DOMAIN dsets : dsets'[i] = dsets[i] \/ \E t \in {Text1, Text2} : Meaning(t).st = "ok" /\ dsets'[i] = dsets[i] \o Meaning(t).ds]_lvars
=============================================================================
