----------------------------- MODULE TraceVars -----------------------------
(* Validates recorded transactions: what every variable delivered at every moment, the abort verdict and the files on disk. *)
EXTENDS Vars, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, res
tv == <<vvars, sid, l, res>>

S == Trace[sid]
O == S.ops[l + 1]
E == S.ev[l + 1]

(* the text given to the code for a regular expression is that of its tree *)
SelOK(x) == x.re => x.s = <<47>> \o Text(x.tree) \o <<47>>
Well(s) == \A w \in Range(s.vars) : \A x \in Range(w.inc) \cup Range(w.exc) : SelOK(x)

TraceInit ==
  /\ sid \in DOMAIN Trace
  /\ Assert(Well(Trace[sid]), <<"text and tree differ", Trace[sid].sid>>)
  /\ l = 0 /\ res = "run"
  /\ VInit([reqacc |-> Trace[sid].reqacc, resacc |-> Trace[sid].resacc, mp |-> Trace[sid].mp], Trace[sid].memlim, Trace[sid].reqlim, Trace[sid].reslim)

Fails(b, p) == buf[b].readed \/ OverLimit(b, p)

Step ==
  CASE O.o = "conn" -> Supply("conn", O.x)
    [] O.o = "url" -> Supply("url", O.x)
    [] O.o = "reqh" -> Supply("reqh", O.x)
    [] O.o = "resh" -> Supply("resh", O.x)
    [] O.o = "append" -> AppendBody("req", O.p) /\ E.ok = (out'.err = "")
    [] O.o = "rappend" -> AppendBody("res", O.p) /\ E.ok = (out'.err = "")
    [] O.o = "rawread" -> E.n >= 0 /\ RawRead(O.n, E.n) /\ out'.err = E.err /\ out'.data = E.data
    [] O.o = "rawseek" -> RawSeek(O.off, O.wh) /\ out'.err = E.err /\ out'.n = E.n
    [] O.o = "acc" -> SetAccess(O.a)
    [] O.o = "fetch" -> Fetch(S.vars[O.i], E.vals) /\ E.ab = (vabort' # 0)
                        /\ E.dis = (vabort' # 0) /\ E.st = (IF vabort' # 0 THEN vabort' ELSE 200)

Agrees == Files' = E.files /\ E.stray = 0

Consume == /\ l < Len(S.ops) /\ l < Len(S.ev) /\ "files" \in DOMAIN E
           /\ Step /\ Agrees /\ l' = l + 1 /\ UNCHANGED res

(* for the reader of a rejection *)
Expected == IF l < Len(S.ops) /\ O.o = "fetch"
            THEN LET w == S.vars[O.i] IN
                 IF w.v \in Collections THEN "the values of (any order between names) " \o ToJson([i \in DOMAIN Select(w, Entries(w.v)) |-> Select(w, Entries(w.v))[i].vals])
                                             \o " abort " \o ToString(AbortOf(w.v))
                 ELSE "one of " \o ToJson(Scalar(w.v)) \o " abort " \o ToString(AbortOf(w.v))
            ELSE "no step of Vars, files " \o ToString(Files)

Finish ==
  /\ ~ ENABLED Consume
  /\ UNCHANGED <<vvars, l>>
  /\ IF l = Len(S.ops) /\ l = Len(S.ev)
     THEN /\ Assert(S.wf => MultiWellFormed, <<"not the body the parts make", S.sid>>)
          /\ res' = "ok" /\ PrintT("OK " \o ToString(S.sid))
     ELSE res' = "bad" /\ PrintT("BAD " \o ToString(S.sid) \o " " \o ToString(l + 1) \o " " \o Expected)

TraceNext == res = "run" /\ UNCHANGED sid /\ (Consume \/ Finish)
=============================================================================
