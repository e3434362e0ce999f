--------------------------------- MODULE Fn ---------------------------------
(* The transformations and operators of the rule language as functions on byte strings: C16-C19. *)
EXTENDS Bytes, Rx

(* C16 *)
RemoveWs(s) == SelectSeq(s, LAMBDA c : ~IsWs(c))
RECURSIVE CompressWs(_)
CompressWs(s) == IF s = <<>> THEN <<>>
                 ELSE IF IsWs(Head(s)) THEN <<32>> \o CompressWs(TrimLeft(s))
                 ELSE <<Head(s)>> \o CompressWs(Tail(s))
RemoveNulls(s) == SelectSeq(s, LAMBDA c : c # 0)
ReplaceNulls(s) == [i \in DOMAIN s |-> IF s[i] = 0 THEN 32 ELSE s[i]]

(* C17: one pass, every escape once *)
Esc2(s) == Len(s) >= 3 /\ s[1] = 37 /\ IsHex(s[2]) /\ IsHex(s[3])
EscU(s) == Len(s) >= 6 /\ s[1] = 37 /\ s[2] \in {117, 85} /\ \A i \in 3..6 : IsHex(s[i])
CodeU(s) == HexVal(s[3]) * 4096 + HexVal(s[4]) * 256 + HexVal(s[5]) * 16 + HexVal(s[6])
CharU(c) == IF 65281 <= c /\ c <= 65374 THEN c - 65248      \* full width FF01..FF5E
            ELSE IF 55296 <= c /\ c <= 57343 THEN Bad       \* a surrogate is no character
            ELSE c
RECURSIVE UrlDecode(_, _)
UrlDecode(s, uni) ==
  IF s = <<>> THEN <<>>
  ELSE IF Esc2(s) THEN <<HexVal(s[2]) * 16 + HexVal(s[3])>> \o UrlDecode(Drop(s, 3), uni)
  ELSE IF uni /\ EscU(s) THEN Utf8(CharU(CodeU(s))) \o UrlDecode(Drop(s, 6), uni)
  ELSE <<IF s[1] = 43 THEN 32 ELSE s[1]>> \o UrlDecode(Tail(s), uni)

Apply(fn, s) == CASE fn = "none" -> s
                  [] fn = "lowercase" -> LowerS(s)
                  [] fn = "removeWhitespace" -> RemoveWs(s)
                  [] fn = "compressWhitespace" -> CompressWs(s)
                  [] fn = "removeNulls" -> RemoveNulls(s)
                  [] fn = "replaceNulls" -> ReplaceNulls(s)
                  [] fn = "urlDecode" -> UrlDecode(s, FALSE)
                  [] fn = "urlDecodeUni" -> UrlDecode(s, TRUE)

(* may the runs of z be made longer before fn is applied? (MCPump) *)
Pumpable(fn, z) == z < 128 /\ (fn \in {"urlDecode", "urlDecodeUni"} => ~IsHex(z) /\ z \notin {85, 117})

(* C18: an integer is a sign and the digits without leading zeros *)
RECURSIVE NoZeros(_)
NoZeros(d) == IF d # <<>> /\ Head(d) = 48 THEN NoZeros(Tail(d)) ELSE d
Unsigned(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
IsInteger(s) == LET d == Unsigned(Trim(s)) IN d # <<>> /\ \A i \in DOMAIN d : IsDigit(d[i])
Num(s) == IF ~IsInteger(s) THEN [neg |-> FALSE, d |-> <<>>]
          ELSE LET d == NoZeros(Unsigned(Trim(s))) IN [neg |-> d # <<>> /\ Trim(s)[1] = 45, d |-> d]
RECURSIVE CmpDigits(_, _)
CmpDigits(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                   ELSE IF a = <<>> THEN 0
                   ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
                   ELSE CmpDigits(Tail(a), Tail(b))
CmpNum(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
                ELSE IF a.neg THEN CmpDigits(b.d, a.d) ELSE CmpDigits(a.d, b.d)
Compare2(op, v, arg) == LET c == CmpNum(Num(v), Num(arg))
                        IN CASE op = "eq" -> c = 0 [] op = "ge" -> c >= 0 [] op = "gt" -> c > 0 [] op = "le" -> c <= 0 [] op = "lt" -> c < 0

NumOps == {"eq", "ge", "gt", "le", "lt"}
(* C18, C19; o: [k, arg] or [k |-> "rx", re] *)
Holds(o, v) == IF o.k \in NumOps THEN Compare2(o.k, v, o.arg) ELSE Search(o.re, v)
RECURSIVE ApplyAll(_, _)
ApplyAll(tr, s) == IF tr = <<>> THEN s ELSE ApplyAll(Tail(tr), Apply(Head(tr), s))
=============================================================================
