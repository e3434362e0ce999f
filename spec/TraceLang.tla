----------------------------- MODULE TraceLang -----------------------------
(* Validates recorded loads: what loading said, and the rules and settings the engines then hold. Variables are judged by what
   they deliver on a probe transaction, transformations and operators by what they make of probe texts. *)
EXTENDS SecLang, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, res
S == Trace[sid]
O == S.ops[l + 1]
E == S.ev[l + 1]

RxWell(s) == \A i \in DOMAIN s.rxs : s.rxs[i].ok => Text(s.rxs[i].tree) = s.rxs[i].s

TraceInit ==
  /\ sid \in DOMAIN Trace
  /\ Assert(RxWell(Trace[sid]), <<"text and tree differ", Trace[sid].sid>>)
  /\ l = 0 /\ res = "run"
  /\ LInit(Trace[sid].rxs, Trace[sid].nsets, Trace[sid].nengs)
  /\ LET p == Trace[sid].probe IN
     /\ set = [reqacc |-> TRUE, resacc |-> TRUE, mp |-> <<>>]
     /\ inp = [conn |-> <<[ip |-> p.ip]>>, url |-> <<p.url>>, reqh |-> <<[h |-> p.reqh]>>, resh |-> <<p.resh>>]
     /\ vabort = 0 /\ seen = <<>> /\ dirok = TRUE /\ full = FALSE /\ out = Ret(0, "", <<>>)
     /\ buf = [b \in {"req", "res"} |-> [NewBuf(100000, 100000) EXCEPT !.mem = IF b = "req" THEN p.body ELSE p.resbody]]

(* the variables of the rule in any order *)
RECURSIVE Matching(_, _)
Matching(ws, vs) == IF ws = <<>> THEN vs = <<>>
                    ELSE \E i \in DOMAIN vs : /\ ~Head(ws).known \/ MayDeliver(Head(ws), vs[i])
                                              /\ \A k \in 1..(i - 1) : vs[k] # vs[i]
                                              /\ Matching(Tail(ws), [j \in 1..(Len(vs) - 1) |-> vs[IF j < i THEN j ELSE j + 1]])
OpAgrees(o, d) == /\ d.op = o.k
                  /\ IF o.k = "rx" THEN d.arg = o.arg ELSE Trim(d.arg) = Trim(o.arg)
                  /\ o.known => d.hits = [i \in DOMAIN S.probes |-> Holds([k |-> o.k, arg |-> o.arg, re |-> o.re], S.probes[i])]
Differs(r, d) ==
  IF d.id # r.id THEN "id"
  ELSE IF d.tr # r.tr \/ d.outs # [i \in DOMAIN S.probes |-> ApplyAll(r.tr, S.probes[i])] THEN "transformations"
  ELSE IF d.not # r.not \/ ~OpAgrees(r.op, d) THEN "operator"
  ELSE IF d.acts # [i \in DOMAIN r.acts |-> <<r.acts[i].k, r.acts[i].val>>] THEN "actions"
  ELSE IF d.meta # r.meta THEN "metadata"
  ELSE IF ~(Len(d.vars) = Len(r.vars) /\ Matching(r.vars, d.vars)) THEN "variables"
  ELSE IF Len(d.subs) # Len(r.subs) THEN "chain"
  ELSE ""
RuleAgrees(r, d) == Differs(r, d) = "" /\ \A i \in DOMAIN r.subs : Differs(r.subs[i], d.subs[i]) = ""

InPhase(rs, p) == SelectSeq(rs, LAMBDA r : r.ph = p)
Held(e) == Flat([p \in 1..6 |-> InPhase(engs[e].rules, p)])
DumpAgrees(e, d) ==
  /\ d.mode = engs[e].mode /\ d.reqacc = engs[e].reqacc /\ d.resacc = engs[e].resacc
  /\ Len(d.rules) = Len(Held(e))
  /\ \A i \in DOMAIN d.rules : d.rules[i].ph = Held(e)[i].ph /\ RuleAgrees(Held(e)[i], d.rules[i])

Step ==
  CASE O.o = "add" -> "ok" \in DOMAIN E /\ AddText(O.set, O.t, E.ok)
    [] O.o = "exec" -> "ok" \in DOMAIN E /\ E.ok /\ Execute(O.set, O.eng)
    [] O.o = "dump" -> "rules" \in DOMAIN E /\ DumpAgrees(O.eng, E) /\ UNCHANGED lvars
Consume == /\ l < Len(S.ops) /\ l < Len(S.ev) /\ Step /\ l' = l + 1 /\ UNCHANGED <<res, vvars>>

Expected == IF l >= Len(S.ops) \/ l >= Len(S.ev) THEN "no further event"
            ELSE IF O.o = "add" THEN "loading is " \o Meaning(O.t).st
            ELSE IF O.o = "dump" /\ "rules" \in DOMAIN E
                 THEN IF Len(E.rules) = Len(Held(O.eng))
                      THEN ToJson([i \in DOMAIN E.rules |-> IF E.rules[i].ph # Held(O.eng)[i].ph THEN "phase"
                                   ELSE IF RuleAgrees(Held(O.eng)[i], E.rules[i]) THEN "same" ELSE Differs(Held(O.eng)[i], E.rules[i])])
                           \o " mode " \o ToString(<<engs[O.eng].mode, engs[O.eng].reqacc, engs[O.eng].resacc>>) \o " of " \o ToJson(Held(O.eng))
                      ELSE ToString(Len(Held(O.eng))) \o " rules"
            ELSE "success"
Finish ==
  /\ ~ ENABLED Consume
  /\ UNCHANGED <<lvars, vvars, l>>
  /\ IF l = Len(S.ops) /\ l = Len(S.ev) THEN res' = "ok" /\ PrintT("OK " \o ToString(S.sid))
     ELSE res' = "bad" /\ PrintT("BAD " \o ToString(S.sid) \o " " \o ToString(l + 1) \o " " \o Expected)
TraceNext == res = "run" /\ UNCHANGED sid /\ (Consume \/ Finish)
=============================================================================
