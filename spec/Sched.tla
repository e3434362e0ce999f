------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* Several transactions on one engine (C23).  The state of E2E belongs to  *)
(* the transaction that runs (who); the states of the others wait in bank. *)
(* A scheduler picks a transaction and lets it run up to the next point    *)
(* where it can be held: the end of a call or the evaluation of a rule.    *)
(* Only the engine (engs) is shared, and nothing changes it.               *)
(***************************************************************************)
EXTENDS E2E

VARIABLES bank, who, going
schedvars == <<e2evars, bank, who, going>>

Own == <<buf, dirok, full, out, set, inp, vabort, seen,
         cfg, mode, phase, started, cur, nxt, iv, abort, sdata, client, call, run, member, todo, pc, ev>>
Become(o) == /\ buf' = o[1] /\ dirok' = o[2] /\ full' = o[3] /\ out' = o[4] /\ set' = o[5] /\ inp' = o[6] /\ vabort' = o[7] /\ seen' = o[8]
             /\ cfg' = o[9] /\ mode' = o[10] /\ phase' = o[11] /\ started' = o[12] /\ cur' = o[13] /\ nxt' = o[14] /\ iv' = o[15]
             /\ abort' = o[16] /\ sdata' = o[17] /\ client' = o[18] /\ call' = o[19] /\ run' = o[20] /\ member' = o[21] /\ todo' = o[22]
             /\ pc' = o[23] /\ ev' = o[24]

(* a transaction [ip, port, mp] that was just made by the engine e with the limits l = <<memlim, reqlim, reslim>> *)
Fresh(e, t, l) ==
  <<[b \in {"req", "res"} |-> IF b = "req" THEN NewBuf(l[1], l[2]) ELSE NewBuf(l[3], l[3])], TRUE, FALSE, Ret(0, "", <<>>),
    [reqacc |-> e.reqacc, resacc |-> e.resacc, mp |-> t.mp], [conn |-> <<>>, url |-> <<>>, reqh |-> <<>>, resh |-> <<>>], 0, <<>>,
    [rules |-> [i \in DOMAIN e.rules |-> Numbered(e.rules[i])], defs |-> <<>>, ip |-> t.ip, port |-> t.port], e.mode,
    PBegin, PBegin, NotStarted, 0, CleanIv, FALSE, 0, <<"", "">>, "", 0, 0, <<>>, "idle", NoEv>>

(* the engine that the texts make *)
EngineOf(ts) == Apply2(NewEngine, Flat([i \in DOMAIN ts |-> Meaning(ts[i]).ds]))

SInit(rx, e, txs, l) ==
  /\ rxs = rx /\ dsets = <<>> /\ engs = <<e>>
  /\ bank = [i \in DOMAIN txs |-> Fresh(e, txs[i], l)]
  /\ who = 1 /\ going = FALSE
  /\ LET o == Fresh(e, txs[1], l) IN
     /\ buf = o[1] /\ dirok = o[2] /\ full = o[3] /\ out = o[4] /\ set = o[5] /\ inp = o[6] /\ vabort = o[7] /\ seen = o[8]
     /\ cfg = o[9] /\ mode = o[10] /\ phase = o[11] /\ started = o[12] /\ cur = o[13] /\ nxt = o[14] /\ iv = o[15]
     /\ abort = o[16] /\ sdata = o[17] /\ client = o[18] /\ call = o[19] /\ run = o[20] /\ member = o[21] /\ todo = o[22]
     /\ pc = o[23] /\ ev = o[24]

(* the scheduler picks i *)
Pick(i) ==
  /\ ~going
  /\ \E b \in {[bank EXCEPT ![who] = Own]} : bank' = b /\ Become(b[i])
  /\ who' = i /\ going' = TRUE /\ UNCHANGED lvars

Held == pc' \in {"idle", "eval"}
(* the transaction goes on: with its next call o, or with the rule it was held at *)
GoOn(o) == /\ going
           /\ \/ pc = "idle" /\ Do(o)
              \/ Work
           /\ going' = ~Held
           /\ UNCHANGED <<bank, who>>
(* what the scheduler sees of the transaction when it is held *)
Stop == IF pc' = "eval" THEN [e |-> "gate", ph |-> phase', cr |-> cur', m |-> member'] ELSE ev'
=============================================================================
