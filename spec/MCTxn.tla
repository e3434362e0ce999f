------------------------------- MODULE MCTxn -------------------------------
(* Exhaustive check of Txn for small rule sets and every sequence of calls: the properties C01-C09 are stated
   here declaratively, over what has been observed (the ghost variables), not in terms of how Txn computes it. *)
EXTENDS Txn

CONSTANTS Kinds,     \* names of the rule templates, see Tpl
          Phases,    \* phases the rules may be in
          NRules,    \* number of rules (chains count once)
          Calls,     \* names of calls the environment may make
          MaxCalls,
          Modes,     \* initial modes
          Defaults   \* default actions: "none" or "deny"

VARIABLES
  evals,    \* rid -> how often evaluated in this transaction
  acts,     \* sequence of <<rid, index>> executed in the current call
  seen,     \* rids evaluated in the current call, in order
  lastPh,   \* highest phase of which a rule was evaluated
  target,   \* highest phase an allow of an earlier call or of this call leads to
  began,    \* what held when the current call began: [run, dis, abort, mode, target]
  must,     \* index of the rule of this phase that has to be evaluated next, -1 if none
  nlogged,  \* log entries written
  ntaken,   \* log entries handed out
  n         \* calls made

ghost == <<evals, acts, seen, lastPh, target, began, must, nlogged, ntaken, n>>
vars == <<txvars, ghost>>

A(k, i) == [k |-> k, n |-> i, s |-> ""]
Allow(s) == [k |-> "allow", n |-> 0, s |-> s]
OneVar(ab) == <<[vals |-> <<<<97>>>>, ab |-> ab]>>
R(rid, ph, out, as, subs) ==
  [rid |-> rid, ph |-> ph, not |-> FALSE, vars |-> OneVar(IF out = "AB" THEN 413 ELSE 0), tr |-> <<>>,
   op |-> [k |-> IF out = "F" THEN "none" ELSE "all", arg |-> <<>>, n |-> 0], acts |-> as, subs |-> subs]

(* rule templates; rid 10*i for the i-th rule, 10*i+k for the rules chained to it *)
Tpl(k, i, ph) ==
  LET b == 10 * i
      L == <<A("mark", 2)>>
  IN CASE k = "mark"   -> R(b, ph, "T", L, <<>>)
       [] k = "no"     -> R(b, ph, "F", <<A("deny", 0)>>, <<>>)
       [] k = "log"    -> R(b, ph, "T", <<A("log", 0)>>, <<>>)
       [] k = "deny"   -> R(b, ph, "T", <<A("deny", 0), A("log", 0), A("status", 404)>>, <<>>)
       [] k = "grp"    -> R(b, ph, "T", <<A("skip1", 0), A("mark", 4), A("mark", 3), A("log", 0), A("mark", 1), A("status", 444), A("mark", 0), A("deny", 0), A("mark", 0)>>, <<>>)
       [] k = "stat"   -> R(b, ph, "T", <<A("status", 600 - i)>>, <<>>)
       [] k = "denyx"  -> R(b, ph, "T", <<A("deny", 0)>>, <<>>)
       [] k = "skip1"  -> R(b, ph, "T", <<A("skip1", 0), A("mark", 2)>>, <<>>)
       [] k = "skip2"  -> R(b, ph, "T", <<A("skip", 2)>>, <<>>)
       [] k = "allow"  -> R(b, ph, "T", <<Allow(""), A("mark", 2)>>, <<>>)
       [] k = "allowp" -> R(b, ph, "T", <<Allow("phase")>>, <<>>)
       [] k = "allowr" -> R(b, ph, "T", <<Allow("request")>>, <<>>)
       [] k = "pass"   -> R(b, ph, "T", <<A("pass", 0), A("log", 0)>>, <<>>)
       [] k = "denypass" -> R(b, ph, "T", <<A("log", 0), A("deny", 0), A("pass", 0)>>, <<>>)
       [] k = "block"  -> R(b, ph, "T", <<A("block", 0), A("mark", 3), A("mark", 0)>>, <<>>)
       [] k = "moff"   -> R(b, ph, "T", <<A("mode", Off), A("deny", 0)>>, <<>>)
       [] k = "mdet"   -> R(b, ph, "T", <<A("mode", Detect)>>, <<>>)
       [] k = "mon"    -> R(b, ph, "T", <<A("log", 0), A("mode", On)>>, <<>>)
       [] k = "abvar"  -> R(b, ph, "AB", <<A("pass", 0)>>, <<>>)
       [] k = "abact"  -> R(b, ph, "T", <<A("pass", 0), A("abort", 500), A("mark", 4)>>, <<>>)
       [] k = "chTT"   -> R(b, ph, "T", L, <<R(b + 1, 0, "T", <<A("deny", 0), A("mark", 1)>>, <<>>)>>)
       [] k = "chTF"   -> R(b, ph, "T", <<A("deny", 0)>>, <<R(b + 1, 0, "F", L, <<>>)>>)
       [] k = "chFT"   -> R(b, ph, "F", <<A("deny", 0)>>, <<R(b + 1, 0, "T", L, <<>>)>>)
       [] k = "chTTT"  -> R(b, ph, "T", <<A("mark", 4), A("mark", 0)>>, <<R(b + 1, 0, "T", <<A("skip1", 0), A("mark", 3)>>, <<>>), R(b + 2, 5, "T", L, <<>>)>>)
       [] k = "chTFT"  -> R(b, ph, "T", L, <<R(b + 1, 0, "F", L, <<>>), R(b + 2, 0, "T", L, <<>>)>>)
       [] k = "chTAB"  -> R(b, ph, "T", L, <<R(b + 1, 0, "AB", L, <<>>), R(b + 2, 0, "T", L, <<>>)>>)
       [] k = "chAL"   -> R(b, ph, "T", <<Allow("phase")>>, <<R(b + 1, 0, "T", <<A("skip1", 0), Allow("request")>>, <<>>)>>)

Cfgs == {[rules |-> [i \in 1..NRules |-> Tpl(f[i][1], i, f[i][2])],
          defs |-> IF Defaults = "deny" THEN <<A("deny", 0), A("log", 0), A("status", 418)>> ELSE <<>>,
          ip |-> "c", port |-> "p"] : f \in [1..NRules -> Kinds \X Phases]}

AllRids == {10 * i + k : i \in 1..NRules, k \in 0..2}
Parent(rid) == cfg.rules[rid \div 10]
Member(rid) == Chain(Parent(rid))[(rid % 10) + 1]
OutOf(r) == IF r.vars[1].ab # 0 THEN "AB" ELSE IF r.op.k = "none" THEN "F" ELSE "T"
AllTrue(p) == \A i \in DOMAIN Chain(p) : OutOf(Chain(p)[i]) = "T"
HasAct(p, ks) == \E i \in DOMAIN Chain(p) : \E k \in DOMAIN Chain(p)[i].acts : Chain(p)[i].acts[k].k \in ks

NoCall == [run |-> FALSE, dis |-> FALSE, ab |-> FALSE, mode |-> On, target |-> 0, started |-> 0]

Init ==
  /\ \E c \in Cfgs, m \in Modes : TxInit(c, m)
  /\ evals = [r \in AllRids |-> 0] /\ acts = <<>> /\ seen = <<>> /\ lastPh = 0 /\ target = 0
  /\ began = NoCall /\ must = -1 /\ nlogged = 0 /\ ntaken = 0 /\ n = 0

Arg(c) == CASE c = "mode" -> {On, Off, Detect} [] c = "abort" -> {403} [] OTHER -> {0}

(* the index a matching rule at index k (from 0) makes the next one, -1 if the phase is left *)
Follow(p, k) ==
  LET skips == SelectSeq(ChainActions(p), LAMBDA x : x[3].k \in {"skip", "skip1"})
      last == skips[Len(skips)][3]
  IN IF mode # Detect /\ HasAct(p, {"allow"}) THEN -1
     ELSE IF skips = <<>> THEN k + 1
     ELSE k + 1 + (IF last.k = "skip1" THEN 1 ELSE last.n)

AllowTo(s, from) == CASE s = "" -> PLog [] s = "phase" -> from + 1 [] s = "request" -> PResH [] OTHER -> 0
Max2(a, b) == IF a > b THEN a ELSE b

Env ==
  /\ n < MaxCalls
  /\ \E c \in Calls : \/ BeginPhaseCall(c)
                      \/ \E a \in Arg(c) : OtherCall(c, a)
                      \/ c = "res" /\ CollectResult
  /\ n' = n + 1
  /\ acts' = <<>> /\ seen' = <<>>
  /\ began' = [run |-> pc' # "idle" /\ run' = PhaseOfCall(call') /\ pc' = "next", dis |-> iv.dis, ab |-> abort, mode |-> mode,
               target |-> target, started |-> started]
  /\ must' = IF pc' = "next" THEN 0 ELSE -1
  /\ nlogged' = nlogged + (IF ev'.e = "ret" THEN Len(iv'.log) - Len(iv.log) ELSE 0)
  /\ ntaken' = IF ev'.e = "res" /\ ~abort THEN ntaken + Len(ev'.log) ELSE ntaken
  /\ UNCHANGED <<evals, lastPh, target>>

Step ==
  /\ Internal
  /\ UNCHANGED <<n, began, ntaken>>
  /\ evals' = IF ev'.e = "eval" THEN [evals EXCEPT ![ev'.r] = @ + 1] ELSE evals
  /\ seen' = IF ev'.e = "eval" THEN Append(seen, ev'.r) ELSE seen
  /\ lastPh' = IF ev'.e = "eval" THEN Max2(lastPh, run) ELSE lastPh
  /\ acts' = IF ev'.e = "act" THEN Append(acts, <<ev'.r, ev'.i>>) ELSE acts
  /\ target' = IF ev'.e = "act" /\ ev'.r # 0 /\ Member(ev'.r).acts[ev'.i].k = "allow"
               THEN Max2(target, AllowTo(Member(ev'.r).acts[ev'.i].s, run)) ELSE target
  /\ nlogged' = nlogged + (IF ev'.e = "act" /\ Len(iv'.log) > Len(iv.log) THEN Len(iv'.log) - Len(iv.log) ELSE 0)
  /\ must' = IF pc = "eval" /\ pc' # "eval" /\ pc' # "act" THEN cur + 1
             ELSE IF pc = "eval" /\ pc' = "act" THEN Follow(Current, cur)
             ELSE must

Next == Env \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

----------------------------------------------------------------------------
IsEval == ev.e = "eval"
IsAct == ev.e = "act"
AtEnd == pc = "end"

(* C01 *)
OnceEach == \A r \in AllRids : evals[r] <= 1
InItsCall == IsEval => /\ run = PhaseOfCall(call) /\ Parent(ev.r).ph = run /\ ev.ph = run
                       /\ run > began.started /\ run >= lastPh
PhaseForward == [][phase' >= phase]_vars
StartedOnce == [][started' >= started]_vars
Returns == (pc # "idle") ~> (pc = "idle")

(* C02: heads of the chains evaluated in this call *)
Heads == SelectSeq(seen, LAMBDA r : r % 10 = 0)
Undisturbed == /\ began.run
               /\ ~iv.dis /\ ~abort
               /\ \A i \in DOMAIN Heads : ~(AllTrue(Parent(Heads[i])) /\ HasAct(Parent(Heads[i]), {"skip", "skip1", "allow", "mode"}))
Complete == (AtEnd /\ Undisturbed) => Heads = [i \in DOMAIN RulesOf(run) |-> RulesOf(run)[i].rid]
InOrder == \A i \in 1..(Len(Heads) - 1) : Heads[i] < Heads[i + 1]
(* a phase that may run does run *)
RunsWhenDue == (AtEnd /\ PhaseOfCall(call) > began.started /\ PhaseOfCall(call) >= began.target
                /\ ~began.dis /\ ~began.ab /\ began.mode # Off)
               => (began.run /\ (RulesOf(PhaseOfCall(call)) # <<>> => seen # <<>>))

(* C03 *)
NextIsDue == [][(pc = "eval" /\ member = 1) => cur = must]_vars
NothingLeft == (AtEnd /\ began.run /\ ~iv.dis /\ ~abort /\ mode # Off) => (must = -1 \/ must >= Len(RulesOf(run)))
AllowedPast == IsEval => (run >= began.target \/ target > began.target)
NoEvalAfterAllow == [][(ev'.e = "eval" /\ ev'.r % 10 = 0) => target <= run]_vars

(* C04 *)
ActsOnlyIfAll == (IsAct /\ ev.r # 0) =>
   LET p == Parent(ev.r) IN /\ AllTrue(p)
                            /\ \A i \in DOMAIN Chain(p) : \E k \in DOMAIN seen : seen[k] = Chain(p)[i].rid
StopsAtFirstFailure == IsEval => \A i \in 1..(ev.r % 10) : OutOf(Chain(Parent(ev.r))[i]) = "T"
Executed(rid, i) == Cardinality({k \in DOMAIN acts : acts[k] = <<rid, i>>})
Switched == \E k \in DOMAIN Heads : HasAct(Parent(Heads[k]), {"mode"})
ActsIfAll == AtEnd /\ ~Switched => \A k \in DOMAIN Heads :
   LET p == Parent(Heads[k]) IN
     \A m \in DOMAIN Chain(p) : \A i \in DOMAIN Chain(p)[m].acts :
       LET a == Chain(p)[m].acts[i] IN
         Executed(Chain(p)[m].rid, i) = (IF AllTrue(p) /\ ~(began.mode = Detect /\ Group(a) = Disruptive) THEN 1 ELSE 0)

(* C06: consecutive actions of rules (default actions apart) are in member, group, text order *)
RuleActs == SelectSeq(acts, LAMBDA x : x[1] # 0)
ActionOrder == \A k \in 1..(Len(RuleActs) - 1) :
   LET x == RuleActs[k]
       y == RuleActs[k + 1]
       gx == Group(Member(x[1]).acts[x[2]])
       gy == Group(Member(y[1]).acts[y[2]])
   IN x[1] < y[1] \/ (x[1] = y[1] /\ (gx < gy \/ (gx = gy /\ x[2] < y[2])))

(* C07 *)
QuietWhilePending == [][ev'.e = "eval" => ~iv.dis]_vars
DeniedIsPending == [][(ev'.e = "act" /\ ev'.r # 0 /\ Member(ev'.r).acts[ev'.i].k = "deny" /\ pc = "act")
                        => (iv'.dis /\ iv'.st # 200 /\ Len(iv'.log) = Len(iv.log) + 1)]_vars
ResultTakesAll == [][(ev'.e = "res" /\ n' = n + 1) => (ev'.st = iv.st /\ ev'.dis = iv.dis /\ ev'.log = iv.log
                        /\ (abort \/ (~iv'.dis /\ iv'.log = <<>> /\ iv'.st = 200)))]_vars
NoLogLost == abort \/ nlogged = ntaken + Len(iv.log)
VerdictKept == [][(iv.dis /\ ~(n' = n + 1 /\ ev'.e = "res")) =>
                    (iv'.dis \/ (ev'.e = "act" /\ Member(ev'.r).acts[ev'.i].k = "pass"))]_vars

(* C08 *)
StaysAborted == [][abort => abort']_vars
AbortDisrupts == abort => iv.dis
AbortStatusKept == [][(abort /\ ~(ev'.e = "ret" /\ ev'.c = "abort" /\ n' = n + 1)) => iv'.st = iv.st]_vars
NoEvalAfterAbort == [][(began.ab \/ abort) => ev'.e # "eval" \/ ev' = ev]_vars

(* C09 *)
OffIsSilent == /\ IsEval => mode # Off
               /\ IsAct => mode # Off \/ Member(ev.r).acts[ev.i].k = "mode"
DetectKeepsVerdict == [][(mode = Detect /\ pc = "act") => (phase' = phase /\ (iv'.dis = iv.dis \/ abort'))]_vars
=============================================================================
