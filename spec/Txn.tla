-------------------------------- MODULE Txn --------------------------------
(***************************************************************************)
(* One transaction of the engine: the phases, the rules of a phase, the    *)
(* evaluation of a rule and of its chain, the execution of its actions,    *)
(* skip and allow, the intervention, abort and the engine mode.            *)
(*                                                                         *)
(* Structured like the implementation (modsecurity/transaction.go,         *)
(* sec_rule.go, actions/): a call of the API is BeginCall, then NextRule,  *)
(* EvalMember and DoAction steps, then EndCall.  Every step that a user of *)
(* the API can observe leaves an event in `ev'; the trace specification    *)
(* compares these with what the real code did, MCTxn checks the properties *)
(* of properties.jsonl on them exhaustively for small rule sets.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,      \* the rule set: [rules : Seq(rule), defs : Seq(action), ip, port]
  mode,     \* engine mode: 0 on, 1 off, 2 detection only
  phase,    \* the phase that runs or that would run next
  started,  \* the last phase that was run
  cur, nxt, \* indices (from 0) of the current and of the next rule, End if none
  iv,       \* pending intervention [st, dis, log, url, pause]
  abort,    \* the transaction was aborted
  sdata,    \* status set by a status action, 0 if none
  client,   \* <<ip, port>> as supplied with the connection
  call,     \* the call that is being processed, "" if none
  run,      \* the phase the call is running
  member,   \* which rule of the chain is being evaluated, 0 if none
  todo,     \* actions left to execute
  pc,       \* "idle" "next" "eval" "act" "end"
  ev        \* the last observable event

txvars == <<cfg, mode, phase, started, cur, nxt, iv, abort, sdata, client, call, run, member, todo, pc, ev>>

(* phases of the engine *)
PBegin == 0  PConn == 1  PReqH == 2  PReqB == 3  PResH == 4  PResB == 5  PLog == 6  PEnd == 7
On == 0  Off == 1  Detect == 2
NotStarted == -1
End == -2

NoEv == [e |-> "none"]
CleanIv == [st |-> 200, dis |-> FALSE, log |-> <<>>, url |-> FALSE, pause |-> 0]

PhaseOfCall(c) == CASE c = "conn" -> PConn [] c = "reqh" -> PReqH [] c = "reqb" -> PReqB
                    [] c = "resh" -> PResH [] c = "resb" -> PResB [] c = "log" -> PLog [] OTHER -> -1

RulesOf(p) == IF p <= PBegin \/ p >= PEnd THEN <<>> ELSE SelectSeq(cfg.rules, LAMBDA r : r.ph = p)

----------------------------------------------------------------------------
(* matching: C05 *)

RECURSIVE Reverse(_)
Reverse(s) == IF s = <<>> THEN <<>> ELSE Append(Reverse(Tail(s)), Head(s))

Trans1(a, v) == CASE a.k = "app" -> Append(v, a.n)
                  [] a.k = "rev" -> Reverse(v)
                  [] a.k = "drop" -> IF v = <<>> THEN v ELSE Tail(v)
                  [] a.k = "dup" -> v \o v

RECURSIVE TransAll(_, _)
TransAll(tr, v) == IF tr = <<>> THEN v ELSE TransAll(Tail(tr), Trans1(Head(tr), v))

RECURSIVE HasSub(_, _)
HasSub(v, w) == \/ Len(v) >= Len(w) /\ SubSeq(v, 1, Len(w)) = w
                \/ v # <<>> /\ HasSub(Tail(v), w)

OpHolds(op, v) == CASE op.k = "all" -> TRUE
                    [] op.k = "none" -> FALSE
                    [] op.k = "eq" -> v = op.arg
                    [] op.k = "has" -> HasSub(v, op.arg)
                    [] op.k = "longer" -> Len(v) > op.n
                    [] op.k = "abeq" -> FALSE

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Values(r) == Concat([i \in DOMAIN r.vars |-> [k \in DOMAIN r.vars[i].vals |-> TransAll(r.tr, r.vars[i].vals[k])]])

(* the status of the abort that fetching a variable of r causes, 0 if none *)
FetchAborts(r) == LET s == SelectSeq(r.vars, LAMBDA v : v.ab # 0) IN IF s = <<>> THEN 0 ELSE s[Len(s)].ab

(* the first value on which the operator itself fails, Len+1 if none *)
OpAbortAt(r) == LET vs == Values(r)
                    bad == {i \in DOMAIN vs : r.op.k = "abeq" /\ vs[i] = r.op.arg}
                IN IF bad = {} THEN Len(vs) + 1 ELSE CHOOSE i \in bad : \A k \in bad : i <= k

(* [m |-> matches, ab |-> status of the abort that happened meanwhile or 0] *)
EvalResult(r) ==
  LET vs == Values(r)
      hit == {i \in DOMAIN vs : r.not # OpHolds(r.op, vs[i])}
  IN IF abort \/ FetchAborts(r) # 0 THEN [m |-> FALSE, ab |-> FetchAborts(r)]
     ELSE IF OpAbortAt(r) <= Len(vs)
          THEN LET before == {i \in hit : i < OpAbortAt(r)}
               IN IF before # {} THEN [m |-> TRUE, ab |-> 0] ELSE [m |-> FALSE, ab |-> r.op.n]
          ELSE [m |-> hit # {}, ab |-> 0]

----------------------------------------------------------------------------
(* actions: C06 *)

Group(a) == CASE a.k = "status" -> 1
              [] a.k \in {"log", "abort"} -> 2
              [] a.k \in {"deny", "block", "pass", "allow", "custiv"} -> 3
              [] a.k \in {"skip", "skip1", "mode"} -> 4
              [] a.k = "mark" -> a.n
Disruptive == 3

(* the actions of a rule in the order they run, as <<rid, index, action>> *)
Ordered(rid, acts) ==
  LET ix == [i \in DOMAIN acts |-> <<rid, i, acts[i]>>]
      grp(g) == SelectSeq(ix, LAMBDA x : Group(x[3]) = g)
  IN grp(0) \o grp(1) \o grp(2) \o grp(3) \o grp(4)

Chain(r) == <<r>> \o r.subs
ChainActions(r) == Concat([i \in DOMAIN Chain(r) |-> Ordered(Chain(r)[i].rid, Chain(r)[i].acts)])

Prefix(ph) == "[client " \o client[1] \o ":" \o client[2] \o "] (phase " \o ToString(ph) \o ") "
DenyMsg(code) == "ModSecurity: Access denied with code " \o ToString(code)
LogMsg(ph, ru) == "ModSecurity: running action in phase " \o ToString(ph) \o " rule " \o ToString(ru)

DenyStatus == IF iv.st # 200 THEN iv.st ELSE IF sdata >= 100 /\ sdata <= 599 THEN sdata ELSE 403

(* where a jump to phase p leads: never back to a phase that was already started *)
Clamp(p) == LET q == IF started > PBegin /\ p <= started THEN started + 1 ELSE p
            IN IF q < PBegin THEN PBegin ELSE IF q >= PEnd THEN PEnd ELSE q
AllowTarget(s) == CASE s = "" -> PLog [] s = "phase" -> phase + 1 [] s = "request" -> PResH [] OTHER -> -1

Obs(base, i, ab) == base @@ [st |-> i.st, dis |-> i.dis, log |-> i.log, url |-> i.url, pause |-> i.pause, ab |-> ab]

----------------------------------------------------------------------------

TxInit(c, m) ==
  /\ cfg = c /\ mode = m
  /\ phase = PBegin /\ started = PBegin /\ cur = NotStarted /\ nxt = 0
  /\ iv = CleanIv /\ abort = FALSE /\ sdata = 0 /\ client = <<"", "">>
  /\ call = "" /\ run = 0 /\ member = 0 /\ todo = <<>> /\ pc = "idle" /\ ev = NoEv

(* a call that belongs to a phase: ProcessConnection ... ProcessLogging *)
BeginPhaseCall(c) ==
  LET p == PhaseOfCall(c) IN
  /\ pc = "idle" /\ p > 0
  /\ call' = c
  /\ client' = IF c = "conn" THEN <<cfg.ip, cfg.port>> ELSE client
  /\ IF phase > p \/ started >= p
     THEN /\ pc' = "end" /\ UNCHANGED <<phase, started, cur, nxt, run>>
     ELSE /\ phase' = p /\ started' = p /\ cur' = NotStarted /\ nxt' = 0 /\ run' = p
          /\ pc' = IF mode = Off \/ abort \/ iv.dis THEN "end" ELSE "next"
  /\ ev' = NoEv
  /\ UNCHANGED <<cfg, mode, iv, abort, sdata, member, todo>>

(* the calls that run no rule *)
OtherCall(c, n) ==
  /\ pc = "idle" /\ PhaseOfCall(c) < 0 /\ c # "res"
  /\ mode' = IF c = "mode" THEN n ELSE mode
  /\ abort' = (abort \/ c \in {"abort", "aberr"})
  /\ iv' = CASE c = "abort" -> [iv EXCEPT !.st = n, !.dis = TRUE]
             [] c = "aberr" -> [iv EXCEPT !.st = n, !.dis = TRUE,
                                          !.log = Append(@, Prefix(phase) \o "abort process with error boom")]
             [] OTHER -> iv
  /\ ev' = Obs([e |-> "ret", c |-> c], iv', abort')
  /\ UNCHANGED <<cfg, phase, started, cur, nxt, sdata, client, call, run, member, todo, pc>>

(* rules and default actions may be added to the engine at any time *)
AddToEngine(rs, ds) ==
  /\ pc = "idle"
  /\ cfg' = [cfg EXCEPT !.rules = @ \o rs, !.defs = @ \o ds]
  /\ ev' = Obs([e |-> "ret", c |-> "add"], iv, abort)
  /\ UNCHANGED <<mode, phase, started, cur, nxt, iv, abort, sdata, client, call, run, member, todo, pc>>

(* Result: everything since the last one; an aborted transaction keeps its verdict *)
CollectResult ==
  /\ pc = "idle"
  /\ ev' = [e |-> "res", c |-> "res", st |-> iv.st, dis |-> iv.dis, log |-> iv.log, url |-> iv.url, pause |-> iv.pause]
  /\ iv' = IF abort THEN iv ELSE CleanIv
  /\ UNCHANGED <<cfg, mode, phase, started, cur, nxt, abort, sdata, client, call, run, member, todo, pc>>

NextRule ==
  /\ pc = "next"
  /\ IF phase # run \/ nxt = End \/ mode = Off
     THEN pc' = "end" /\ UNCHANGED <<cur, nxt, member>>
     ELSE /\ cur' = nxt
          /\ nxt' = IF nxt + 1 >= Len(RulesOf(run)) THEN End ELSE nxt + 1
          /\ IF nxt < Len(RulesOf(run)) THEN pc' = "eval" /\ member' = 1
                                        ELSE pc' = "next" /\ UNCHANGED member
  /\ ev' = NoEv
  /\ UNCHANGED <<cfg, mode, phase, started, iv, abort, sdata, client, call, run, todo>>

Current == RulesOf(run)[cur + 1]

AfterRule == IF iv'.dis THEN "end" ELSE "next"

(* the member was evaluated with this result: [m, ab, and the log entries of the abort] *)
EvalWith(res) ==
  /\ pc = "eval"
  /\ LET r == Chain(Current)[member]
     IN /\ ev' = [e |-> "eval", r |-> r.rid, ph |-> phase, cr |-> cur]
        /\ IF res.ab # 0 THEN abort' = TRUE /\ iv' = [iv EXCEPT !.st = res.ab, !.dis = TRUE, !.log = @ \o res.log]
                         ELSE UNCHANGED <<abort, iv>>
        /\ IF ~res.m
           THEN member' = 0 /\ pc' = AfterRule /\ UNCHANGED todo
           ELSE IF member < Len(Chain(Current))
                THEN member' = member + 1 /\ UNCHANGED <<pc, todo>>
                ELSE member' = 0 /\ pc' = "act" /\ todo' = ChainActions(Current)
  /\ UNCHANGED <<cfg, mode, phase, started, cur, nxt, sdata, client, call, run>>
EvalMember == pc = "eval" /\ EvalWith(EvalResult(Chain(Current)[member]) @@ [log |-> <<>>])

EffIv(a) ==
  CASE a.k = "log" -> [iv EXCEPT !.log = Append(@, Prefix(phase) \o LogMsg(phase, cur))]
    [] a.k = "deny" -> [iv EXCEPT !.st = DenyStatus, !.dis = TRUE, !.log = Append(@, Prefix(phase) \o DenyMsg(DenyStatus))]
    [] a.k = "pass" -> IF abort THEN iv ELSE [CleanIv EXCEPT !.log = iv.log]
    [] a.k = "abort" -> [iv EXCEPT !.st = a.n, !.dis = TRUE]
    [] a.k = "custiv" -> [iv EXCEPT !.st = a.n, !.dis = TRUE, !.url = TRUE, !.pause = 7]
    [] OTHER -> iv

ActEvent(x, i, ab) == Obs([e |-> "act", r |-> x[1], i |-> x[2]], i, ab)

(* detection only: what disrupts is left out *)
LeftOut(a) == mode = Detect /\ a.k # "endblock" /\ Group(a) = Disruptive
SkipAction ==
  /\ pc = "act" /\ todo # <<>> /\ LeftOut(todo[1][3])
  /\ todo' = Tail(todo)
  /\ ev' = NoEv
  /\ UNCHANGED <<cfg, mode, phase, started, cur, nxt, iv, abort, sdata, client, call, run, member, pc>>

(* block is a call of its own: the default actions run in between and it returns afterwards *)
BeginBlock ==
  /\ pc = "act" /\ todo # <<>> /\ todo[1][3].k = "block" /\ ~LeftOut(todo[1][3])
  /\ todo' = Ordered(0, cfg.defs) \o <<<<todo[1][1], todo[1][2], [k |-> "endblock"]>>>> \o Tail(todo)
  /\ ev' = NoEv
  /\ UNCHANGED <<cfg, mode, phase, started, cur, nxt, iv, abort, sdata, client, call, run, member, pc>>

DoAction ==
  /\ pc = "act" /\ todo # <<>> /\ todo[1][3].k # "block" /\ ~LeftOut(todo[1][3])
  /\ LET x == todo[1]
         a == x[3]
     IN /\ iv' = EffIv(a)
        /\ abort' = (abort \/ a.k = "abort")
        /\ sdata' = IF a.k = "status" THEN a.n ELSE sdata
        /\ mode' = IF a.k = "mode" THEN a.n ELSE mode
        /\ CASE a.k = "allow" /\ AllowTarget(a.s) >= 0 ->
                  /\ phase' = Clamp(AllowTarget(a.s)) /\ cur' = NotStarted /\ nxt' = 0
             [] a.k \in {"skip", "skip1"} ->
                  /\ nxt' = LET n == cur + 1 + (IF a.k = "skip" THEN a.n ELSE 1)
                            IN IF n >= Len(RulesOf(phase)) THEN End ELSE n
                  /\ UNCHANGED <<phase, cur>>
             [] OTHER -> UNCHANGED <<phase, cur, nxt>>
        /\ ev' = ActEvent(x, iv', abort')
        /\ todo' = Tail(todo)
  /\ UNCHANGED <<cfg, started, client, call, run, member, pc>>

EndActions ==
  /\ pc = "act" /\ todo = <<>>
  /\ pc' = IF iv.dis THEN "end" ELSE "next"
  /\ ev' = NoEv
  /\ UNCHANGED <<cfg, mode, phase, started, cur, nxt, iv, abort, sdata, client, call, run, member, todo>>

EndCall ==
  /\ pc = "end"
  /\ ev' = Obs([e |-> "ret", c |-> call], iv, abort)
  /\ pc' = "idle" /\ call' = "" /\ run' = 0
  /\ UNCHANGED <<cfg, mode, phase, started, cur, nxt, iv, abort, sdata, client, member, todo>>

Idle == pc = "idle"
(* nothing but the event changes *)
Quiet == UNCHANGED <<cfg, mode, phase, started, cur, nxt, iv, abort, sdata, client, call, run, member, todo, pc>>
Inner == NextRule \/ SkipAction \/ BeginBlock \/ DoAction \/ EndActions \/ EndCall
Internal == Inner \/ EvalMember

=============================================================================
