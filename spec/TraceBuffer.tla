---------------------------- MODULE TraceBuffer ----------------------------
(* Validates recorded uses of the body buffers: what every call returned, the lengths after it and the files on disk. *)
EXTENDS Buffer, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, res
tv == <<bvars, sid, l, res>>

S == Trace[sid]
O == S.ops[l + 1]
E == S.ev[l + 1]

TraceInit ==
  /\ sid \in DOMAIN Trace
  /\ l = 0 /\ res = "run"
  /\ buf = [b \in {"req", "res", "req2", "res2"} |-> \* of two transactions
               IF b \in {"req", "req2"} THEN NewBuf(Trace[sid].memlim, Trace[sid].reqlim) ELSE NewBuf(Trace[sid].reslim, Trace[sid].reslim)]
  /\ dirok = (Trace[sid].dir # "blocked") /\ full = FALSE /\ out = Ret(0, "", <<>>)

(* what the specification allows the operation to do, guided by the observed byte counts *)
Step ==
  CASE O.o = "write" -> Write(O.b, O.p)
    [] O.o = "append" -> Write(O.b, O.p)
    [] O.o = "read" -> E.n >= 0 /\ Read(O.b, O.n, E.n)
    [] O.o = "seek" -> Seek(O.b, O.off, O.wh)
    [] O.o = "copy" -> CopyOut(O.b)
    [] O.o \in {"string", "bytes"} -> View(O.b)
    [] O.o = "close" -> CloseBuf(O.b)
    [] O.o = "dir" -> SetDir(O.n = 1)
    [] O.o = "full" -> SetFull(O.n >= 0)

Agrees ==
  /\ out'.err = E.err
  /\ out'.data = E.data
  /\ (O.o \in {"write", "read", "seek", "copy", "string", "bytes"} => out'.n = E.n)
  /\ \A b \in DOMAIN buf : Length(buf'[b]) = E.len[b]
  /\ Files' = E.files /\ E.priv

Consume == /\ l < Len(S.ops) /\ l < Len(S.ev) /\ "n" \in DOMAIN E
           /\ Step /\ Agrees /\ l' = l + 1 /\ UNCHANGED res

Finish ==
  /\ ~ ENABLED Consume
  /\ UNCHANGED <<bvars, l>>
  /\ IF l = Len(S.ops) /\ l = Len(S.ev)
     THEN res' = "ok" /\ PrintT("OK " \o ToString(S.sid))
     ELSE res' = "bad" /\ PrintT("BAD " \o ToString(S.sid) \o " " \o ToString(l + 1) \o " no step of Buffer from "
                                 \o ToJson([b \in DOMAIN buf |-> [content |-> Content(buf[b]), pos |-> buf[b].pos, readed |-> buf[b].readed, spilled |-> buf[b].spilled]]))

TraceNext == res = "run" /\ UNCHANGED sid /\ (Consume \/ Finish)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
