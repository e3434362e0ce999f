------------------------------ MODULE TraceE2E ------------------------------
(* Validates recorded transactions on engines loaded from rule texts: the events of every call. Where the specification leaves
   something open (Vars: a part that was not supplied, a malformed multipart body) one way through it has to fit. *)
EXTENDS E2E, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, nc, res
S == Trace[sid]
RxWell(s) == \A i \in DOMAIN s.rxs : s.rxs[i].ok => Text(s.rxs[i].tree) = s.rxs[i].s

TraceInit ==
  /\ sid \in DOMAIN Trace
  /\ Assert(RxWell(Trace[sid]), <<"text and tree differ", Trace[sid].sid>>)
  /\ l = 0 /\ nc = 0 /\ res = "run"
  /\ EInit(Trace[sid].rxs, Trace[sid].mp, Trace[sid].memlim, Trace[sid].reqlim, Trace[sid].reslim, Trace[sid].ip, Trace[sid].port)

NextCall == nc < Len(S.ops) /\ (\E o \in {S.ops[nc + 1]} : Do(o)) /\ nc' = nc + 1

Compare ==
  LET e == Seen(ev') IN
  IF e.e = "none" THEN UNCHANGED <<l, res>>
  ELSE IF l < Len(S.ev) /\ S.ev[l + 1] = e THEN l' = l + 1 /\ UNCHANGED res
  ELSE /\ res' = "bad" /\ UNCHANGED l
       /\ PrintT("BAD " \o ToString(S.sid) \o " " \o ToString(l + 1) \o " " \o ToJson(e))

Finish ==
  /\ Idle /\ nc = Len(S.ops)
  /\ IF l = Len(S.ev) THEN res' = "ok" /\ PrintT("OK " \o ToString(S.sid))
                      ELSE res' = "bad" /\ PrintT("BAD " \o ToString(S.sid) \o " " \o ToString(l + 1) \o " nothing more")
  /\ UNCHANGED <<e2evars, l, nc>>

TraceNext ==
  /\ res = "run" /\ UNCHANGED sid
  /\ \/ (NextCall \/ (Work /\ UNCHANGED nc)) /\ Compare
     \/ Finish
=============================================================================
