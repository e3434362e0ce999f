------------------------------ MODULE TraceFn ------------------------------
(* Validates recorded applications of transformations and operators. Every application is made twice. *)
EXTENDS Fn, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, res

S == Trace[sid]

(* what loading and applying has to give *)
Loads(s) == CASE s.t = "trans" -> TRUE
              [] s.t = "num" -> IsInteger(s.arg)
              [] s.t = "rx" -> TRUE
              [] s.t = "badrx" -> FALSE
Well(s) == /\ s.t = "rx" => Text(s.re) = s.arg   \* the text that was given to the code is that of the tree
           /\ "pump" \in DOMAIN s => CASE s.t = "trans" -> Pumpable(s.fn, s.pump.c)
                                      [] s.t = "rx" -> s.pump.c < 128 /\ Inert(s.re, s.pump.c)
Want(s) == IF ~Loads(s) THEN <<[e |-> "rejected"]>>
           ELSE IF s.t = "trans" THEN [i \in 1..2 |-> [e |-> "out", b |-> Apply(s.fn, s.in)]]
           ELSE [i \in 1..2 |-> [e |-> "holds", m |-> (IF s.t = "num" THEN Compare2(s.fn, s.in, s.arg) ELSE Search(s.re, s.in))]]

Init == sid \in DOMAIN Trace /\ res = "run"
Next == /\ res = "run" /\ UNCHANGED sid
        /\ Assert(Well(S), <<"text and tree differ", S.sid>>)
        /\ IF S.ev = Want(S) THEN res' = "ok" /\ PrintT("OK " \o ToString(S.sid))
                             ELSE res' = "bad" /\ PrintT("BAD " \o ToString(S.sid) \o " 1 " \o ToJson(Want(S)))
=============================================================================
