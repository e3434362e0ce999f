------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of 0..255; text is decoded to code points where the language is about characters. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Head1(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Range(s) == {s[i] : i \in DOMAIN s}

(* position of the first byte of s that is in the set c, Len + 1 if there is none *)
IndexOf(s, c) == LET ps == {i \in DOMAIN s : s[i] \in c} IN IF ps = {} THEN Len(s) + 1 ELSE CHOOSE i \in ps : \A k \in ps : i <= k

RECURSIVE Split(_, _)
Split(s, c) == LET i == IndexOf(s, {c}) IN IF i > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(Drop(s, i), c)

IsWs(c) == c = 32 \/ (9 <= c /\ c <= 13)
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # <<>> /\ IsWs(Head(s)) THEN TrimLeft(Tail(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ IsWs(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))

IsUpper(c) == 65 <= c /\ c <= 90
IsLower(c) == 97 <= c /\ c <= 122
IsDigit(c) == 48 <= c /\ c <= 57
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
LowerS(s) == [i \in DOMAIN s |-> LowerC(s[i])]

IsHex(c) == IsDigit(c) \/ (65 <= c /\ c <= 70) \/ (97 <= c /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c < 97 THEN c - 55 ELSE c - 87

RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Contains(_, _)
Contains(s, p) == HasPrefix(s, p) \/ (s # <<>> /\ Contains(Tail(s), p))

(* UTF-8 *)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Bad == 65533
IsCont(c) == 128 <= c /\ c < 192
(* <<code point, bytes used>> at the start of a non-empty s; a byte that is no character is Bad and stands alone *)
Rune(s) ==
  LET a == s[1]
      n == Len(s)
      C(i) == n >= i /\ IsCont(s[i])
  IN IF a < 128 THEN <<a, 1>>
     ELSE IF a >= 194 /\ a <= 223 /\ C(2) THEN <<(a - 192) * 64 + (s[2] - 128), 2>>
     ELSE IF a >= 224 /\ a <= 239 /\ C(2) /\ C(3) /\ (a = 224 => s[2] >= 160) /\ (a = 237 => s[2] < 160)
          THEN <<(a - 224) * 4096 + (s[2] - 128) * 64 + (s[3] - 128), 3>>
     ELSE IF a >= 240 /\ a <= 244 /\ C(2) /\ C(3) /\ C(4) /\ (a = 240 => s[2] >= 144) /\ (a = 244 => s[2] < 144)
          THEN <<(a - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + (s[4] - 128), 4>>
     ELSE <<Bad, 1>>
RECURSIVE Runes(_)
Runes(s) == IF s = <<>> THEN <<>> ELSE LET r == Rune(s) IN <<r[1]>> \o Runes(Drop(s, r[2]))
=============================================================================
