----------------------------- MODULE TraceMany -----------------------------
(* A query or body that is one piece (ending in &) repeated many times has the pairs of the piece as many times. *)
EXTENDS Vars, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, res
S == Trace[sid]
HeaderPairs(h) == Flat([i \in DOMAIN h |-> [k \in DOMAIN h[i].vs |-> <<h[i].n, h[i].vs[k]>>]])
Ps == CASE S.where \in {"get", "post"} -> FormPairs(S.piece)
        [] S.where \in {"cookie", "cookies"} -> CookiePairs(<<S.piece>>)
        [] S.where \in {"reqh", "resh"} -> HeaderPairs(S.h)
        [] S.where = "multi" -> MultipartPairs([parts |-> S.parts])
Last == IF S.end = <<>> THEN 0 ELSE 1  \* one pair more, of a name and a value that nothing else has
N == S.times * (Len(Ps) + (IF S.num THEN 1 ELSE 0)) + Last
More == (IF S.num THEN S.times ELSE 0) + Last  \* every piece follows a pair that occurs once
NNames == Cardinality({p[1] : p \in Range(Ps)}) + More
(* what the rules &V "@ge g", &V_NAMES "@ge g" for each g, and V "@rx <the last value>" say *)
By(n, m, l) == Flat([i \in DOMAIN S.ge |-> <<n >= S.ge[i], m >= S.ge[i]>>]) \o <<l = 1>>
Row(n, u, m, ab, l) == <<[by |-> By(n, m, l), n |-> n, uniq |-> u, names |-> m, ab |-> ab, cn |-> <<ToString(n)>>, cnames |-> <<ToString(m)>>]>>
Want == Row(N, Cardinality({p[2] : p \in Range(Ps)}) + More, NNames, FALSE, Last)
(* more parts than are read: nothing of it is delivered, and the transaction is aborted *)
TooMany == S.where = "multi" /\ S.times * Len(S.parts) + Last > 1000 /\ S.ev = Row(0, 0, 0, TRUE, 0)
Init == sid \in DOMAIN Trace /\ res = "run" /\ VInit([reqacc |-> TRUE, resacc |-> TRUE, mp |-> <<>>], 0, 0, 0)
Next == /\ res = "run" /\ UNCHANGED <<sid, vvars>>
        /\ IF S.ev = Want \/ TooMany THEN res' = "ok" /\ PrintT("OK " \o ToString(S.sid))
                          ELSE res' = "bad" /\ PrintT("BAD " \o ToString(S.sid) \o " 1 " \o ToJson(Want))
=============================================================================
