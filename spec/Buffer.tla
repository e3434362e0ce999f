------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* The body buffers of a transaction (modsecurity/buffer.go): a request    *)
(* and a response buffer `b' that share one spill directory.  Writes go to *)
(* memory up to the memory limit and to a spill file beyond it; the first  *)
(* read closes the buffer for writing.  Faults: the directory is missing,  *)
(* or the disk takes only part of a write.                                 *)
(* Buf[b] = [mem, file, spilled, readed, pos, lim, memlim, closed]         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES buf, dirok, full, out
bvars == <<buf, dirok, full, out>>

NewBuf(memlim, lim) == [mem |-> <<>>, file |-> <<>>, spilled |-> FALSE, readed |-> FALSE, pos |-> 0,
                        memlim |-> memlim, lim |-> lim, closed |-> FALSE]

Content(x) == IF x.spilled THEN x.file ELSE x.mem
Length(x) == Len(Content(x))
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
From(s, p) == SubSeq(s, p + 1, Len(s))
Min(a, b) == IF a < b THEN a ELSE b

Files == Cardinality({b \in DOMAIN buf : buf[b].spilled /\ ~buf[b].closed})

(* what the call returned: n bytes, an error class, data *)
Ret(n, err, data) == [n |-> n, err |-> err, data |-> data]

Refused(b, p, why) == /\ out' = Ret(0, why, <<>>) /\ UNCHANGED <<buf, dirok, full>>

(* the cases of Write, one action each *)
WriteAfterRead(b, p) == buf[b].readed /\ Refused(b, p, "readed")

OverLimit(b, p) == Length(buf[b]) + Len(p) > buf[b].lim
WriteOverLimit(b, p) == ~buf[b].readed /\ OverLimit(b, p) /\ Refused(b, p, "limit")

MaySpill(b, p) == ~buf[b].spilled /\ Length(buf[b]) + Len(p) > buf[b].memlim

WriteMem(b, p) ==
  /\ ~buf[b].readed /\ ~OverLimit(b, p) /\ ~buf[b].spilled /\ ~MaySpill(b, p)
  /\ buf' = [buf EXCEPT ![b].mem = @ \o p]
  /\ out' = Ret(Len(p), "", <<>>) /\ UNCHANGED <<dirok, full>>

WriteSpill(b, p) ==
  /\ ~buf[b].readed /\ ~OverLimit(b, p) /\ MaySpill(b, p) /\ dirok /\ ~full
  /\ buf' = [buf EXCEPT ![b].file = buf[b].mem \o p, ![b].spilled = TRUE,
                        ![b].mem = @ \o Take(p, buf[b].memlim - Length(buf[b]))]
  /\ out' = Ret(Len(p), "", <<>>) /\ UNCHANGED <<dirok, full>>

WriteFile(b, p) ==
  /\ ~buf[b].readed /\ ~OverLimit(b, p) /\ buf[b].spilled /\ ~full
  /\ buf' = [buf EXCEPT ![b].file = @ \o p]
  /\ out' = Ret(Len(p), "", <<>>) /\ UNCHANGED <<dirok, full>>

(* the spill file cannot be created *)
SpillNoDir(b, p) ==
  /\ ~buf[b].readed /\ ~OverLimit(b, p) /\ MaySpill(b, p) /\ ~dirok
  /\ Refused(b, p, "io")

(* the spill file cannot take what is in memory: nothing changes, the file is removed *)
SpillFull(b, p) ==
  /\ ~buf[b].readed /\ ~OverLimit(b, p) /\ MaySpill(b, p) /\ dirok /\ full
  /\ Refused(b, p, "io")

(* the disk takes only k bytes of p, k < Len(p): those count *)
SpillShort(b, p, k) ==
  /\ ~buf[b].readed /\ ~OverLimit(b, p) /\ MaySpill(b, p) /\ dirok /\ full /\ k \in 0..(Len(p) - 1)
  /\ buf' = [buf EXCEPT ![b].file = buf[b].mem \o Take(p, k), ![b].spilled = TRUE,
                        ![b].mem = @ \o Take(p, Min(k, buf[b].memlim - Length(buf[b])))]
  /\ out' = Ret(k, "io", <<>>) /\ UNCHANGED <<dirok, full>>
WriteShort(b, p, k) ==
  /\ ~buf[b].readed /\ ~OverLimit(b, p) /\ buf[b].spilled /\ full /\ k \in 0..(Len(p) - 1)
  /\ buf' = [buf EXCEPT ![b].file = @ \o Take(p, k)]
  /\ out' = Ret(k, "io", <<>>) /\ UNCHANGED <<dirok, full>>
(* with a full disk a write may still fit *)
WriteFits(b, p) ==
  /\ ~buf[b].readed /\ ~OverLimit(b, p) /\ full
  /\ \/ buf[b].spilled /\ buf' = [buf EXCEPT ![b].file = @ \o p]
     \/ dirok /\ MaySpill(b, p) /\ buf' = [buf EXCEPT ![b].file = buf[b].mem \o p, ![b].spilled = TRUE,
                                             ![b].mem = @ \o Take(p, buf[b].memlim - Length(buf[b]))]
  /\ out' = Ret(Len(p), "", <<>>) /\ UNCHANGED <<dirok, full>>

Write(b, p) == \/ WriteAfterRead(b, p) \/ WriteOverLimit(b, p) \/ WriteMem(b, p) \/ WriteSpill(b, p) \/ WriteFile(b, p)
               \/ SpillNoDir(b, p) \/ SpillFull(b, p) \/ WriteFits(b, p)
               \/ \E k \in 0..(Len(p) - 1) : SpillShort(b, p, k) \/ WriteShort(b, p, k)

Opened(b) == [buf[b] EXCEPT !.readed = TRUE]

(* Read into n bytes: at least one byte if there is one, never more than asked; the end is reported when nothing is left
   (with the last bytes or by a call of its own); what an empty read says about the end is left open *)
Read(b, n, k) ==
  LET x == buf[b]
      avail == IF x.pos >= Length(x) THEN 0 ELSE Length(x) - x.pos
  IN /\ k <= n /\ (IF avail = 0 \/ n = 0 THEN k = 0 ELSE k \in 1..Min(n, avail))
     /\ buf' = [buf EXCEPT ![b] = [Opened(b) EXCEPT !.pos = @ + k]]
     /\ \E e \in (IF n = 0 THEN {"", "eof"} ELSE IF avail = 0 THEN {"eof"} ELSE IF k = avail THEN {"", "eof"} ELSE {""}) :
          out' = Ret(k, e, SubSeq(Content(x), x.pos + 1, x.pos + k))
     /\ UNCHANGED <<dirok, full>>

(* Seek: whence 0 start, 1 current, 2 end *)
Seek(b, off, whence) ==
  LET x == buf[b]
      base == CASE whence = 0 -> 0 [] whence = 1 -> x.pos [] whence = 2 -> Length(x) [] OTHER -> 0
      to == base + off
  IN /\ IF to < 0 \/ whence \notin {0, 1, 2}
        THEN /\ buf' = [buf EXCEPT ![b] = Opened(b)] /\ out' = Ret(0, "io", <<>>)
        ELSE /\ buf' = [buf EXCEPT ![b] = [Opened(b) EXCEPT !.pos = to]] /\ out' = Ret(to, "", <<>>)
     /\ UNCHANGED <<dirok, full>>

(* WriteTo: everything from the position to the end *)
CopyOut(b) ==
  LET x == buf[b]
      d == IF x.pos >= Length(x) THEN <<>> ELSE From(Content(x), x.pos)
  IN /\ buf' = [buf EXCEPT ![b] = [Opened(b) EXCEPT !.pos = @ + Len(d)]]
     /\ out' = Ret(Len(d), "", d)
     /\ UNCHANGED <<dirok, full>>

(* String, Bytes: the whole content wherever the position is, or an error if it is not in memory *)
View(b) ==
  /\ buf' = [buf EXCEPT ![b] = Opened(b)]
  /\ out' = IF buf[b].spilled THEN Ret(0, "mem", <<>>) ELSE Ret(Length(buf[b]), "", buf[b].mem)
  /\ UNCHANGED <<dirok, full>>

CloseBuf(b) ==
  /\ ~buf[b].closed
  /\ buf' = [buf EXCEPT ![b].closed = TRUE]
  /\ out' = Ret(0, "", <<>>)
  /\ UNCHANGED <<dirok, full>>

(* faults *)
SetDir(ok) == dirok' = ok /\ out' = Ret(0, "", <<>>) /\ UNCHANGED <<buf, full>>
SetFull(f) == full' = f /\ out' = Ret(0, "", <<>>) /\ UNCHANGED <<buf, dirok>>
=============================================================================
