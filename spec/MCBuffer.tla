------------------------------ MODULE MCBuffer ------------------------------
(* All sequences of writes (with faults), reads, seeks and views for small limits: C10, C11. *)
EXTENDS Buffer
CONSTANTS MemLims, Lims, Chunks, MaxOps, Faults

Offsets == {-3, -1, 0, 2, 7}

VARIABLES viewed, \* the last step was String or Bytes
          acc,   \* the bytes reported as accepted so far
          delivered, \* what a client that reads from the start without seeking has got
          linear,    \* no seek so far
          nops
mcv == <<viewed, bvars, acc, delivered, linear, nops>>

Fresh(k) == [i \in 1..k |-> (Len(acc) + i) % 7]

Init == /\ \E m \in MemLims, l \in Lims : buf = [b \in {"b"} |-> NewBuf(m, l)]
        /\ dirok = TRUE /\ full = FALSE /\ out = Ret(0, "", <<>>)
        /\ acc = <<>> /\ delivered = <<>> /\ linear = TRUE /\ nops = 0 /\ viewed = FALSE

B == buf["b"]
DoWrite == \E k \in Chunks : LET p == Fresh(k) IN
             /\ Write("b", p) /\ acc' = acc \o Take(p, out'.n) /\ UNCHANGED <<delivered, linear>>
             /\ (out'.err = "" => out'.n = k)
DoRead == \E n \in 0..3, k \in 0..3 : Read("b", n, k) /\ delivered' = delivered \o out'.data /\ UNCHANGED <<acc, linear>>
DoCopy == CopyOut("b") /\ delivered' = delivered \o out'.data /\ UNCHANGED <<acc, linear>>
DoSeek == \E o \in Offsets, w \in 0..2 : Seek("b", o, w) /\ linear' = FALSE /\ UNCHANGED <<acc, delivered>>
DoView == View("b") /\ viewed' = TRUE /\ UNCHANGED <<acc, delivered, linear>>
DoFault == Faults /\ ((\E f \in BOOLEAN : SetDir(f) \/ SetFull(f)) /\ UNCHANGED <<acc, delivered, linear>>)

Next == nops < MaxOps /\ nops' = nops + 1 /\ (((DoWrite \/ DoRead \/ DoCopy \/ DoSeek \/ DoFault) /\ viewed' = FALSE) \/ DoView)
Spec == Init /\ [][Next]_mcv

(* C10 *)
HoldsAccepted == Content(B) = acc
MemIsAll == ~B.spilled => B.mem = acc
OneStream == (linear /\ B.pos <= Len(acc)) => delivered = Take(acc, B.pos)
ReadsByPosition == [][out'.data # <<>> /\ out'.err = "" /\ B.pos <= Len(acc) /\ buf'["b"].pos # B.pos
                        => out'.data = SubSeq(acc, B.pos + 1, buf'["b"].pos)]_mcv
NoWriteAfterRead == [][B.readed => acc' = acc]_mcv

(* a view is everything or an error, and an error only for a body beyond the memory limit *)
ViewIsAll == viewed => IF out.err = "" THEN out.data = acc ELSE out.err = "mem" /\ (Faults \/ Len(acc) > B.memlim)
(* C11 *)
WithinLimit == Len(acc) <= B.lim \/ acc = <<>>
DiskOnlyBeyondMem == (~Faults /\ B.spilled) <=> (~Faults /\ Len(acc) > B.memlim)
ErrorKeeps == [][(out'.err \in {"limit", "readed"}) => buf' = buf]_mcv
LimitExact == [][(\E k \in Chunks : Write("b", Fresh(k)) /\ out'.err # "readed" /\ ((out'.err = "limit") # (Len(acc) + k > B.lim))) => FALSE]_mcv
FailureTaken == [][(acc' # acc) => acc' = acc \o Fresh(Len(acc') - Len(acc)) /\ buf'["b"].pos = B.pos]_mcv
=============================================================================
