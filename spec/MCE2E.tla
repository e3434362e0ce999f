------------------------------- MODULE MCE2E -------------------------------
(* Small rule texts on small traffic, exhaustively.  The step-by-step semantics of Txn/E2E is compared with a second, direct
   formulation of what a text prescribes : walk over the rules of the phase in order, a rule acts if its operator holds
   on some value of every member of its chain, and so on.  With Emit, the behaviours are printed to be replayed on the code. *)
EXTENDS E2E, Json
CONSTANTS NRules, Pool, Traffics, Acc

VARIABLES scn, nc, hist, want
mcv == <<e2evars, scn, nc, hist, want>>

Dirs == <<
  Asc("SecRule ARGS_GET x \"phase:2,log\"\n"),
  Asc("SecRule ARGS:a|!ARGS:b \"^x\" \"phase:3,deny,status:418\"\n"),
  Asc("SecRule &ARGS \"@ge 2\" \"phase:3,log,t:none,chain\"\n"),
  Asc("SecRule ARGS_POST \"!@rx y\" \"phase:3,skip:1\"\n"),
  Asc("SecRule REQUEST_HEADERS_NAMES \"host\" \"phase:2,t:lowercase,allow:request\"\n"),
  Asc("SecRule ARGS_NAMES \"a\" \"phase:3,allow:phase,log\"\n"),
  Asc("SecRule REQUEST_METHOD POST \"phase:2,deny,block,status:99\"\n"),
  Asc("SecRule RESPONSE_STATUS \"@gt 200\" \"phase:4,deny,pass,log\"\n"),
  Asc("SecRule ARGS_POST_NAMES \"@eq 0\" \"phase:5,log\"\n"),
  Asc("SecRuleEngine DetectionOnly\n"),
  Asc("SecRule RESPONSE_BODY|REQUEST_URI \"q\" \"phase:5,deny,log\"\n"),
  Asc("SecRule REQUEST_BODY \"x\" \"phase:3,skip:2,log\"\n"),
  Asc("SecRule ARGS \"X\" \"phase:3,t:lowercase,pass,status:500\"\n")
>>
H(n, v) == [n |-> Asc(n), vs |-> <<Asc(v)>>]
Req(m, q) == [pre |-> <<>>, path |-> Asc("/q"), hasq |-> q # "", query |-> Asc(q), hasf |-> FALSE, frag |-> <<>>, method |-> Asc(m), proto |-> Asc("HTTP/1.1")]
FormCT == <<H("Content-Type", "application/x-www-form-urlencoded"), H("Host", "h")>>
Resp(code) == [code |-> code, proto |-> Asc("HTTP/1.1"), h |-> <<H("Content-Type", "text/html")>>]
(* request, its header, body as chunks, response, its body *)
Traffic == <<
  [u |-> Req("GET", "a=x"), h |-> <<H("Host", "h")>>, b |-> <<>>, r |-> Resp(404), rb |-> <<>>],
  [u |-> Req("POST", "b=x"), h |-> FormCT, b |-> <<Asc("a=x&b"), Asc("=y")>>, r |-> Resp(200), rb |-> <<Asc("aq")>>],
  [u |-> Req("POST", "a=X&c=x&a=x"), h |-> FormCT, b |-> <<Asc("b=x"), <<>>, Asc("&c=y")>>, r |-> Resp(500), rb |-> <<Asc("q")>>],
  [u |-> Req("PUT", ""), h |-> FormCT, b |-> <<Asc("a=x&b=0123456789")>>, r |-> Resp(200), rb |-> <<>>]
>>
MemLim == 12
Known == <<[s |-> Asc("^x"), ok |-> TRUE, tree |-> [k |-> "cat", l |-> <<[k |-> "bol"], [k |-> "lit", c |-> 120]>>]]>>
C(o) == [o |-> o, p |-> <<>>, x |-> [ip |-> <<>>]]
Ops(t, ds) ==
  LET f == Traffic[t] IN
  <<[o |-> "load", p |-> Flat([i \in DOMAIN ds |-> Dirs[ds[i]]]), x |-> [ip |-> <<>>]]>>
  \o (IF Acc THEN <<[o |-> "load", p |-> Asc("SecRequestBodyAccess On\nSecResponseBodyAccess On"), x |-> [ip |-> <<>>]]>> ELSE <<>>)
  \o <<C("start"), [o |-> "conn", p |-> <<>>, x |-> [ip |-> Asc("::1")]], [o |-> "url", p |-> <<>>, x |-> f.u], [o |-> "reqh", p |-> <<>>, x |-> [h |-> f.h]], C("res")>>
  \o [i \in DOMAIN f.b |-> [o |-> "append", p |-> f.b[i], x |-> [ip |-> <<>>]]] \o <<C("reqb"), C("res"), [o |-> "resh", p |-> <<>>, x |-> f.r], C("res")>>
  \o [i \in DOMAIN f.rb |-> [o |-> "rappend", p |-> f.rb[i], x |-> [ip |-> <<>>]]] \o <<C("resb"), C("res"), C("log"), C("res")>>

Init ==
  /\ scn \in {[t |-> t, ds |-> ds] : t \in Traffics, ds \in UNION {[1..n -> Pool] : n \in 1..NRules}}
  /\ nc = 0 /\ hist = <<>> /\ want = <<>>
  /\ EInit(Known, [pre |-> <<>>, parts |-> <<>>, bd |-> <<110>>, epi |-> <<>>], MemLim, 1000, 1000, "::1", "80")

----------------------------------------------------------------------------
(* the direct formulation *)

Sorted(acts) == LET grp(g) == SelectSeq(acts, LAMBDA a : Group(a) = g /\ ~(g = Disruptive /\ mode = Detect)) IN grp(1) \o grp(2) \o grp(3) \o grp(4)
Message(o, m) == Append(o.iv.log, Prefix(o.phase) \o m)
RECURSIVE Act(_, _)
Act(as, o) ==
  IF as = <<>> THEN o
  ELSE LET a == Head(as)
           code == IF o.iv.st # 200 THEN o.iv.st ELSE IF o.sd \in 100..599 THEN o.sd ELSE 403
       IN Act(Tail(as), CASE a.k = "status" -> [o EXCEPT !.sd = a.n]
                          [] a.k = "log" -> [o EXCEPT !.iv.log = Message(o, LogMsg(o.phase, IF o.jumped THEN -1 ELSE o.at - 1))]
                          [] a.k = "deny" -> [o EXCEPT !.iv.st = code, !.iv.dis = TRUE, !.iv.log = Message(o, DenyMsg(code))]
                          [] a.k = "pass" -> IF o.ab THEN o ELSE [o EXCEPT !.iv.st = 200, !.iv.dis = FALSE]
                          [] a.k = "allow" -> [o EXCEPT !.jumped = TRUE,
                               !.phase = LET p == CASE a.s = "" -> PLog [] a.s = "phase" -> o.phase + 1 [] OTHER -> PResH
                                         IN IF p <= started THEN started + 1 ELSE IF p > PEnd THEN PEnd ELSE p]
                          [] a.k = "skip" -> [o EXCEPT !.skip = a.n]
                          [] OTHER -> o)
(* all values of the variables of a rule; where something is not determined, what E2E says *)
Wanted(w) == IF w.v \in Collections THEN Flat([k \in DOMAIN Select(w, Entries(w.v)) |-> Select(w, Entries(w.v))[k].vals])
             ELSE CHOOSE q \in Scalar(w.v) : TRUE
Certain(w) == ~Vague(w) /\ (w.v \in Collections \/ Cardinality(Scalar(w.v)) = 1)
Candidates(r) == UNION {IF r.vars[k].count THEN {Dec(Len(Wanted(r.vars[k])))} ELSE Range(Wanted(r.vars[k])) : k \in DOMAIN r.vars}
Hit(r) == IF \A k \in DOMAIN r.vars : Certain(r.vars[k]) THEN \E v \in Candidates(r) : Holds(r.op, ApplyAll(r.tr, v)) = ~r.not ELSE Matches(r) = {TRUE}
RECURSIVE Walk(_, _)
Walk(rs, o) ==
  IF o.at > Len(rs) \/ o.iv.dis \/ o.jumped THEN o
  ELSE LET ch == Chain(rs[o.at])
           holds(i) == Aborts(ch[i]) = {} /\ Hit(ch[i])
           fails == {i \in DOMAIN ch : ~holds(i)}
           first == CHOOSE i \in fails : \A j \in fails : i <= j
       IN IF fails # {} THEN IF Aborts(ch[first]) = {} THEN Walk(rs, [o EXCEPT !.at = @ + 1])
                             ELSE [o EXCEPT !.ab = TRUE, !.iv.st = CHOOSE a \in Aborts(ch[first]) : TRUE, !.iv.dis = TRUE, !.iv.log = Message(o, AbortText)]
          ELSE LET p == Act(Flat([i \in DOMAIN ch |-> Sorted(ch[i].acts)]), [o EXCEPT !.skip = 0])
               IN Walk(rs, [p EXCEPT !.at = @ + 1 + p.skip])
NextCall == /\ nc < Len(Ops(scn.t, scn.ds))
            /\ \E o \in {Ops(scn.t, scn.ds)[nc + 1]} : Do(o)
            /\ nc' = nc + 1
            /\ want' = IF call' # "" THEN <<"begin">> ELSE <<>>
(* the direct formulation is evaluated in the first state of the call, on what was supplied by then *)
Ponder == /\ want = <<"begin">> /\ want' = <<"is", LET q == Walk(SelectSeq(cfg.rules, LAMBDA r : r.ph = run),
                 [iv |-> iv, ab |-> abort, sd |-> sdata, phase |-> run, at |-> 1, skip |-> 0, jumped |-> FALSE])
                 IN IF pc = "end" THEN [iv |-> iv, ab |-> abort, sd |-> sdata, phase |-> phase] ELSE [iv |-> q.iv, ab |-> q.ab, sd |-> q.sd, phase |-> q.phase]>>
          /\ UNCHANGED <<e2evars, scn, nc, hist>>
Remember == hist' = IF Seen(ev').e = "none" THEN hist ELSE Append(hist, Seen(ev'))
Next == Ponder \/ (want # <<"begin">> /\ UNCHANGED scn /\ (NextCall \/ (Work /\ UNCHANGED <<nc, want>>)) /\ Remember)

(* C24 *)
Prescribed == want # <<>> /\ want[1] = "is" /\ pc = "end" => want[2] = [iv |-> iv, ab |-> abort, sd |-> sdata, phase |-> phase]
(* what must not depend on anything else *)
OnlyDisruptedByRules == iv.dis => abort \/ \E i \in DOMAIN cfg.rules : \E m \in {cfg.rules[i]} \cup Range(cfg.rules[i].subs) : \E a \in Range(m.acts) : a.k = "deny"
DetectionNeverDenies == mode = Detect /\ ~abort => ~iv.dis
RulesStay == [][engs' = engs \/ ev'.e = "start"]_mcv
Done == pc = "idle" /\ nc = Len(Ops(scn.t, scn.ds))
Emit == Done => PrintT("GEN " \o ToJson([rxs |-> Known, mp |-> set.mp, memlim |-> MemLim, reqlim |-> 1000, reslim |-> 1000, ip |-> "::1", port |-> "80",
                                         ops |-> Ops(scn.t, scn.ds), pred |-> hist]))
=============================================================================
