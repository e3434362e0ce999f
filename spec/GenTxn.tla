------------------------------- MODULE GenTxn -------------------------------
(* Enumerates behaviours of Txn for small rule sets and prints them, with every event, for replay on the real code. *)
EXTENDS MCTxn, Json

CONSTANTS Plans  \* set of sequences of calls

VARIABLES plan, hist
gvars == <<vars, plan, hist>>

PlansFull == {<<"conn", "reqh", "reqb", "resh", "resb", "log", "res">>}
PlansReq == {<<"conn", "reqh", "reqb", "res", "log", "res">>}
PlansWild == {<<"reqh", "reqh", "reqb", "res", "reqh", "log">>, <<"reqb", "reqh", "conn", "resh", "res">>, <<"conn", "reqh", "res", "res", "reqb", "reqb", "resh", "resb", "log", "log", "res">>,
              <<"log", "reqh", "reqb", "res">>, <<"reqh", "abort", "reqb", "res", "log", "res">>, <<"reqh", "aberr", "res", "reqb", "res">>}
PlansMode == {<<"mode1", "reqh", "mode0", "reqb", "res">>, <<"mode2", "conn", "reqh", "res", "mode0", "reqb", "res">>, <<"reqh", "mode2", "reqb", "res", "mode1", "log", "res">>}
PlansIv == {<<"conn", "reqh", "res", "reqb", "res", "log", "res">>, <<"reqh", "reqb", "log", "res", "res">>, <<"conn", "reqh", "abort", "reqb", "res", "res">>}

CallOf(k) == CASE k \in {"mode0", "mode1", "mode2"} -> "mode" [] OTHER -> k
ArgOf(k) == CASE k = "mode1" -> 1 [] k = "mode2" -> 2 [] k \in {"abort", "aberr"} -> 413 [] OTHER -> 0

GenInit ==
  /\ \E c \in Cfgs, m \in Modes : TxInit(c, m)
  /\ evals = [r \in AllRids |-> 0] /\ acts = <<>> /\ seen = <<>> /\ lastPh = 0 /\ target = 0
  /\ began = NoCall /\ must = -1 /\ nlogged = 0 /\ ntaken = 0 /\ n = 0
  /\ plan \in Plans /\ hist = <<>>

GenNext ==
  /\ \/ /\ pc = "idle" /\ n < Len(plan) /\ n' = n + 1
        /\ LET c == CallOf(plan[n + 1]) IN \/ BeginPhaseCall(c)
                                           \/ OtherCall(c, ArgOf(plan[n + 1]))
                                           \/ c = "res" /\ CollectResult
     \/ Internal /\ UNCHANGED n
     \/ /\ pc = "idle" /\ n = Len(plan) /\ n' = n + 1 /\ UNCHANGED txvars
        /\ PrintT("GEN " \o ToJson([rules |-> cfg.rules, defs |-> cfg.defs, ip |-> cfg.ip, port |-> cfg.port, mode |-> IF mode = On THEN 0 ELSE 0,
              calls |-> [i \in DOMAIN plan |-> [c |-> CallOf(plan[i]), n |-> ArgOf(plan[i])]], direct |-> FALSE, sid |-> 0, pred |-> hist]))
  /\ hist' = IF n <= Len(plan) /\ ev' # NoEv /\ n' <= Len(plan) THEN Append(hist, ev') ELSE hist
  /\ UNCHANGED <<plan, evals, acts, seen, lastPh, target, began, must, nlogged, ntaken>>
=============================================================================
