------------------------------ MODULE TraceTxn ------------------------------
(* Validates recorded transactions: every scenario of the trace file is run through Txn and each event the
   real code produced must be the one the specification produces.  One OK or BAD line per scenario. *)
EXTENDS Txn, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, c, res

S == Trace[sid]

TraceInit ==
  /\ sid \in DOMAIN Trace
  /\ l = 0 /\ c = 0 /\ res = "run"
  /\ TxInit([rules |-> Trace[sid].rules, defs |-> Trace[sid].defs, ip |-> Trace[sid].ip, port |-> Trace[sid].port],
            IF Trace[sid].mode < 0 THEN On ELSE Trace[sid].mode)

NextCall == LET k == S.calls[c + 1] IN
  /\ c < Len(S.calls)
  /\ \/ BeginPhaseCall(k.c)
     \/ k.c # "add" /\ OtherCall(k.c, k.n)
     \/ k.c = "res" /\ CollectResult
     \/ k.c = "add" /\ AddToEngine(k.rules, k.defs)
  /\ c' = c + 1

Compare ==
  IF ev' = NoEv THEN UNCHANGED <<l, res>>
  ELSE IF l < Len(S.ev) /\ S.ev[l + 1] = ev' THEN l' = l + 1 /\ UNCHANGED res
  ELSE /\ res' = "bad" /\ UNCHANGED l
       /\ PrintT("BAD " \o ToString(S.sid) \o " " \o ToString(l + 1) \o " " \o ToJson(ev'))

Finish ==
  /\ pc = "idle" /\ c = Len(S.calls)
  /\ IF l = Len(S.ev) THEN res' = "ok" /\ PrintT("OK " \o ToString(S.sid))
                      ELSE res' = "bad" /\ PrintT("BAD " \o ToString(S.sid) \o " " \o ToString(l + 1) \o " nothing more")
  /\ UNCHANGED <<txvars, l, c>>

TraceNext ==
  /\ res = "run" /\ UNCHANGED sid
  /\ \/ (NextCall \/ (Internal /\ UNCHANGED c)) /\ Compare
     \/ Finish

TraceSpec == TraceInit /\ [][TraceNext]_<<txvars, sid, l, c, res>>
=============================================================================
