----------------------------- MODULE TraceSteps -----------------------------
(* Validates in which calls one rule of a text was evaluated. *)
EXTENDS Steps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k, l, rule, res
S == Trace[sid]
RulesIn(t) == SelectSeq(Meaning(t).ds, LAMBDA d : d.d = "rule")
Init == /\ sid \in DOMAIN Trace /\ k = 0 /\ l = 0 /\ res = "run" /\ SInit
        /\ LInit(<<>>, 1, 1) /\ VInit([reqacc |-> FALSE, resacc |-> FALSE, mp |-> <<>>], 0, 0, 0)
        /\ rule \in {LET q == SelectSeq(RulesIn(Trace[sid].text), LAMBDA d : d.id = Dec(Trace[sid].id)) IN IF q = <<>> THEN [ph |-> 0] ELSE q[1]}
Say(w) == PrintT("BAD " \o ToString(S.sid) \o " " \o ToString(l + 1) \o " " \o w) /\ res' = "bad"
Next ==
  /\ res = "run" /\ UNCHANGED <<sid, rule, vvars, lvars>>
  /\ IF rule.ph = 0 THEN Say("no such rule in the text") /\ UNCHANGED <<k, l, step>>
     ELSE IF k = Len(S.calls)
     THEN /\ (IF l = Len(S.ev) THEN res' = "ok" /\ PrintT("OK " \o ToString(S.sid)) ELSE Say("nothing more")) /\ UNCHANGED <<k, l, step>>
     ELSE LET c == S.calls[k + 1]  e == [e |-> "ran", c |-> c] IN
          /\ k' = k + 1 /\ Call(c)
          /\ IF RunsIn(rule, c) THEN IF l < Len(S.ev) /\ S.ev[l + 1] = e THEN l' = l + 1 /\ UNCHANGED res ELSE Say(ToJson(e)) /\ UNCHANGED l
             ELSE UNCHANGED <<l, res>>
=============================================================================
