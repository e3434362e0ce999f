----------------------------- MODULE GenBuffer -----------------------------
(* Enumerates the sequences of buffer operations that MCBuffer checks, for replay on the real buffers. *)
EXTENDS Buffer, Json
CONSTANTS MemLims, Lims, Chunks, Reads, MaxOps, Who, Kinds, Writes
Offsets == {-2, 1}

VARIABLES ops
gv == <<bvars, ops>>

Fresh(k) == [i \in 1..k |-> 97 + ((Len(ops) * 3 + i) % 11)]
Op(o, b, p, n, off, wh) == [o |-> o, b |-> b, p |-> p, n |-> n, off |-> off, wh |-> wh]

Init == /\ \E m \in MemLims, l \in Lims : buf = [b \in {"req", "res"} |-> IF b = "req" THEN NewBuf(m, l) ELSE NewBuf(m, m)]
        /\ dirok = TRUE /\ full = FALSE /\ out = Ret(0, "", <<>>) /\ ops = <<>>

(* full reads only: the sequence of operations matters here, the trace specification decides what may come back *)
Next ==
  /\ Len(ops) < MaxOps
  /\ \E b \in Who :
     \/ \E k \in Chunks : Write(b, Fresh(k)) /\ ops' = Append(ops, Op("write", b, Fresh(k), 0, 0, 0))
     \/ Len(ops) >= Writes /\ "read" \in Kinds /\ \E n \in Reads : Read(b, n, Min(n, IF buf[b].pos >= Length(buf[b]) THEN 0 ELSE Length(buf[b]) - buf[b].pos))
                               /\ ops' = Append(ops, Op("read", b, <<>>, n, 0, 0))
     \/ Len(ops) >= Writes /\ "seek" \in Kinds /\ \E o \in Offsets, w \in 0..2 : Seek(b, o, w) /\ ops' = Append(ops, Op("seek", b, <<>>, 0, o, w))
     \/ Len(ops) >= Writes /\ "copy" \in Kinds /\ CopyOut(b) /\ ops' = Append(ops, Op("copy", b, <<>>, 0, 0, 0))
     \/ Len(ops) >= Writes /\ "view" \in Kinds /\ View(b) /\ ops' = Append(ops, Op("string", b, <<>>, 0, 0, 0))
     \/ "dir" \in Kinds /\ b = "req" /\ SetDir(~dirok) /\ ops' = Append(ops, Op("dir", b, <<>>, IF dirok THEN 0 ELSE 1, 0, 0))

Emit == Len(ops) = MaxOps => PrintT("GEN " \o ToJson([memlim |-> buf["req"].memlim, reqlim |-> buf["req"].lim, reslim |-> buf["res"].lim,
                                                      dir |-> "ok", ops |-> ops]))
GenView == <<ops, buf["req"].memlim, buf["req"].lim, dirok>>
=============================================================================
