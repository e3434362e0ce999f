-------------------------------- MODULE E2E --------------------------------
(***************************************************************************)
(* The whole system: a rule text is loaded (SecLang), a transaction is     *)
(* started on the engine it makes, and request and response are fed to it  *)
(* step by step; every rule of a phase is evaluated on what its variables  *)
(* deliver at that moment (Vars, Fn, Rx) and acts (Txn).  C24.             *)
(***************************************************************************)
EXTENDS SecLang, Txn

e2evars == <<vvars, lvars, txvars>>

EInit(rx, mp, memlim, reqlim, reslim, ip, port) ==
  /\ VInit([reqacc |-> FALSE, resacc |-> FALSE, mp |-> mp], memlim, reqlim, reslim)
  /\ LInit(rx, 1, 1)
  /\ TxInit([rules |-> <<>>, defs |-> <<>>, ip |-> ip, port |-> port], 0)

(* rules as Txn knows them *)
RECURSIVE Numbered(_)
Numbered(r) == [r EXCEPT !.subs = [i \in DOMAIN @ |-> Numbered(@[i])]] @@ [rid |-> 0]

Load(t, ok) == Idle /\ AddText(1, t, ok) /\ ev' = [e |-> "load", ok |-> ok] /\ Quiet /\ UNCHANGED vvars
(* the transaction starts *)
Start ==
  \E e \in {Apply2(NewEngine, dsets[1])} :
  /\ engs' = <<e>>
  /\ cfg' = [cfg EXCEPT !.rules = [i \in DOMAIN e.rules |-> Numbered(e.rules[i])]]
  /\ mode' = e.mode
  /\ set' = [set EXCEPT !.reqacc = e.reqacc, !.resacc = e.resacc]
  /\ ev' = [e |-> "start"]
  /\ UNCHANGED <<rxs, dsets, bvars, inp, vabort, seen, phase, started, cur, nxt, iv, abort, sdata, client, call, run, member, todo, pc>>

(* another text is executed on the engine while the transaction is under way: its rules come behind those that are there, its
   settings hold from now on *)
Extend(t, ok) ==
  \E m \in {Meaning(t)} : \E e \in {IF ok THEN Apply2(engs[1], m.ds) ELSE engs[1]} :
  /\ IF ok THEN m.st # "err" ELSE m.st # "ok"
  /\ engs' = <<e>>
  /\ cfg' = [cfg EXCEPT !.rules = [i \in DOMAIN e.rules |-> Numbered(e.rules[i])]]
  /\ mode' = e.mode
  /\ set' = [set EXCEPT !.reqacc = e.reqacc, !.resacc = e.resacc]
  /\ ev' = [e |-> "load", ok |-> ok]
  /\ UNCHANGED <<rxs, dsets, bvars, inp, vabort, seen, phase, started, cur, nxt, iv, abort, sdata, client, call, run, member, todo, pc>>

----------------------------------------------------------------------------
(* evaluating a rule on what its variables deliver now *)

Transformed(r, v) == IF r.tr = <<>> THEN v ELSE ApplyAll(r.tr, v)
Fits(r, v) == r.not # Holds(r.op, Transformed(r, v))
Some(r, vs) == \E i \in DOMAIN vs : Fits(r, vs[i])
(* can/must the variable w make the rule match?  What is not determined (see Vars) is left open. *)
Verdicts(r, w) ==
  IF Vague(w) THEN BOOLEAN
  ELSE IF w.v \in Collections
       THEN LET gs == Select(w, Entries(w.v)) IN
            {IF w.count THEN Fits(r, Dec(SumLen([i \in DOMAIN gs |-> gs[i].vals]))) ELSE \E i \in DOMAIN gs : Some(r, gs[i].vals)}
       ELSE {IF w.count THEN Fits(r, Dec(Len(x))) ELSE Some(r, x) : x \in Scalar(w.v)}
Matches(r) == LET vs == {Verdicts(r, r.vars[i]) : i \in DOMAIN r.vars} IN
              (IF \E v \in vs : TRUE \in v THEN {TRUE} ELSE {}) \cup (IF \A v \in vs : FALSE \in v THEN {FALSE} ELSE {})
Aborts(r) == {AbortOf(w.v) : w \in Range(r.vars)} \ {0}
AbortText == "abort process with error"

Evaluate ==
  /\ pc = "eval"
  /\ LET r == Chain(Current)[member] IN
     /\ IF Aborts(r) # {} THEN EvalWith([m |-> FALSE, ab |-> CHOOSE a \in Aborts(r) : TRUE, log |-> <<Prefix(phase) \o AbortText>>])
        ELSE \E m \in Matches(r) : EvalWith([m |-> m, ab |-> 0, log |-> <<>>])
     /\ buf' = [b \in DOMAIN buf |-> IF \E w \in Range(r.vars) : (b = "req" /\ Touches(w.v)) \/ (b = "res" /\ w.v = "RESPONSE_BODY" /\ ResOpen)
                                     THEN [buf[b] EXCEPT !.readed = TRUE] ELSE buf[b]]
     /\ vabort' = IF Aborts(r) # {} THEN CHOOSE a \in Aborts(r) : TRUE ELSE vabort
  /\ UNCHANGED <<lvars, set, inp, seen, dirok, full, out>>

(* calls *)
Feed(o) ==
  CASE o.o = "conn" -> Supply("conn", o.x) /\ BeginPhaseCall("conn")
    [] o.o = "url" -> Supply("url", o.x) /\ OtherCall("url", 0)
    [] o.o = "reqh" -> Supply("reqh", o.x) /\ BeginPhaseCall("reqh")
    [] o.o = "resh" -> Supply("resh", o.x) /\ BeginPhaseCall("resh")
    [] o.o \in {"reqb", "resb", "log"} -> BeginPhaseCall(o.o) /\ UNCHANGED vvars
    [] o.o = "res" -> CollectResult /\ UNCHANGED vvars
    [] o.o = "append" -> Idle /\ AppendBody("req", o.p) /\ Quiet /\ ev' = [e |-> "append", ok |-> out'.err = ""]
    [] o.o = "rappend" -> Idle /\ AppendBody("res", o.p) /\ Quiet /\ ev' = [e |-> "append", ok |-> out'.err = ""]
Do(o) == CASE o.o = "load" -> \E ok \in BOOLEAN : Load(o.p, ok)
           [] o.o = "start" -> Idle /\ Start
           [] o.o = "exec" -> Idle /\ \E ok \in BOOLEAN : Extend(o.p, ok)
           [] OTHER -> Feed(o) /\ UNCHANGED lvars
Work == Evaluate \/ (Inner /\ UNCHANGED <<vvars, lvars>>)
(* what a caller sees *)
Seen(e) == IF e.e \in {"eval", "act"} THEN [e |-> "none"] ELSE e
=============================================================================
