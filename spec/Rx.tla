--------------------------------- MODULE Rx ---------------------------------
(* Regular expressions as syntax trees, their text, and whether some part of a text belongs to one. *)
EXTENDS Bytes

(* tree: [k |-> "lit", c], "hex" [c: written \x{..}], "any", "set" [neg, items <<lo, hi>>, optionally cl: classes],
   "cls" [n: one of d w s D W S], "cat" [l], "alt" [l], "rep" [x, min, max (-1: none), lazy], "grp" [x], "named" [x],
   "bol", "eol", "bot", "eot", "wb", "nwb", "fl" [on, off: letters i s m U, bare: written (?i) and not (?i:...), x] *)

Word(c) == IsUpper(c) \/ IsLower(c) \/ IsDigit(c) \/ c = 95
RxSpace(c) == c \in {9, 10, 12, 13, 32}
RxBase(k, c) == CASE k \in {"d", "D"} -> IsDigit(c) [] k \in {"w", "W"} -> Word(c) [] k \in {"s", "S"} -> RxSpace(c)
RxNeg(k) == k \in {"D", "W", "S"}

(* the characters that are c in another case (ASCII, Latin-1 and what these share with the rest of Unicode) *)
RxOrbits == {{107, 75, 8490}, {115, 83, 383}, {229, 197, 8491}, {223, 7838}, {255, 376}, {181, 924, 956}}
RxOrbit(c) == IF \E o \in RxOrbits : c \in o THEN CHOOSE o \in RxOrbits : c \in o
            ELSE IF IsUpper(c) \/ (192 <= c /\ c <= 222 /\ c # 215) THEN {c, c + 32}
            ELSE IF IsLower(c) \/ (224 <= c /\ c <= 254 /\ c # 247) THEN {c, c - 32} ELSE {c}
RxCases(c, f) == IF "i" \in f THEN RxOrbit(c) ELSE {c}
Cls(k, c, f) == RxNeg(k) # (\E d \in RxCases(c, f) : RxBase(k, d))

(* f: the flags in force *)
RxAccepts(a, c, f) == CASE a.k \in {"lit", "hex"} -> a.c \in RxCases(c, f)
                      [] a.k = "any" -> c # 10 \/ "s" \in f
                      [] a.k = "cls" -> Cls(a.n, c, f)
                      [] a.k = "set" -> a.neg # (\/ \E i \in DOMAIN a.items : \E d \in RxCases(c, f) : a.items[i][1] <= d /\ d <= a.items[i][2]
                                                 \/ ("cl" \in DOMAIN a /\ \E i \in DOMAIN a.cl : Cls(a.cl[i], c, f)))

Boundary(s, i) == (i > 0 /\ Word(s[i])) # (i < Len(s) /\ Word(s[i + 1]))
RxFlags(a, f) == (f \ {a.off[i] : i \in DOMAIN a.off}) \cup {a.on[i] : i \in DOMAIN a.on}

(* the positions at which a match of a in s that starts at one of the positions ps can end; positions count from 0 *)
RECURSIVE EndsF(_, _, _, _)
RECURSIVE EndsCat(_, _, _, _)
RECURSIVE EndsRep(_, _, _, _, _)
RECURSIVE Closure(_, _, _, _)
EndsF(a, s, ps, f) ==
  CASE a.k = "cat" -> EndsCat(a.l, s, ps, f)
    [] a.k = "alt" -> UNION {EndsF(a.l[i], s, ps, f) : i \in DOMAIN a.l}
    [] a.k \in {"grp", "named"} -> EndsF(a.x, s, ps, f)
    [] a.k = "fl" -> EndsF(a.x, s, ps, RxFlags(a, f))
    [] a.k = "rep" -> LET base == EndsRep(a.x, s, ps, a.min, f)
                      IN IF a.max < 0 THEN Closure(a.x, s, base, f)
                         ELSE UNION {EndsRep(a.x, s, base, n, f) : n \in 0..(a.max - a.min)}
    [] a.k = "bot" -> ps \cap {0}
    [] a.k = "eot" -> ps \cap {Len(s)}
    [] a.k = "bol" -> {p \in ps : p = 0 \/ ("m" \in f /\ s[p] = 10)}
    [] a.k = "eol" -> {p \in ps : p = Len(s) \/ ("m" \in f /\ s[p + 1] = 10)}
    [] a.k = "wb" -> {p \in ps : Boundary(s, p)}
    [] a.k = "nwb" -> {p \in ps : ~Boundary(s, p)}
    [] OTHER -> {p + 1 : p \in {q \in ps : q < Len(s) /\ RxAccepts(a, s[q + 1], f)}}
EndsCat(l, s, ps, f) == IF l = <<>> THEN ps ELSE EndsCat(Tail(l), s, EndsF(Head(l), s, ps, f), f)
EndsRep(x, s, ps, n, f) == IF n = 0 THEN ps ELSE EndsRep(x, s, EndsF(x, s, ps, f), n - 1, f)
Closure(x, s, ps, f) == LET more == ps \cup EndsF(x, s, ps, f) IN IF more = ps THEN ps ELSE Closure(x, s, more, f)
Ends(a, s, ps) == EndsF(a, s, ps, {})

(* s: bytes *)
Search(a, s) == LET t == Runes(s) IN Ends(a, t, 0..Len(t)) # {}

(* no part of the expression accepts z: then it does not matter how long a run of z in the text is (MCPump).
   With several lines the ends of a run of newlines are places where ^ and $ hold, and they do inside of it, too. *)
RECURSIVE InertF(_, _, _)
InertF(a, z, f) == CASE a.k \in {"cat", "alt"} -> \A i \in DOMAIN a.l : InertF(a.l[i], z, f)
                     [] a.k \in {"grp", "rep", "named"} -> InertF(a.x, z, f)
                     [] a.k = "fl" -> InertF(a.x, z, RxFlags(a, f))
                     [] a.k \in {"bol", "eol", "bot", "eot", "wb", "nwb"} -> TRUE
                     [] OTHER -> ~RxAccepts(a, z, f)
Inert(a, z) == InertF(a, z, {})

(* text of a tree *)
Meta == {36, 40, 41, 42, 43, 46, 63, 91, 92, 93, 94, 123, 124, 125}  \* $ ( ) * + . ? [ \ ] ^ { | }
LitText(c) == IF c \in Meta THEN <<92, c>> ELSE Utf8(c)
SetChar(c) == IF c \in {91, 92, 93, 94, 45} THEN <<92, c>> ELSE Utf8(c)
ClsText(c) == CASE c = "d" -> 100 [] c = "D" -> 68 [] c = "w" -> 119 [] c = "W" -> 87 [] c = "s" -> 115 [] c = "S" -> 83
RepText(a) == (CASE a.min = 0 /\ a.max = -1 -> <<42>>
                 [] a.min = 1 /\ a.max = -1 -> <<43>>
                 [] a.min = 0 /\ a.max = 1 -> <<63>>
                 [] a.max = -1 -> <<123>> \o Dec(a.min) \o <<44, 125>>
                 [] a.min = a.max -> <<123>> \o Dec(a.min) \o <<125>>
                 [] OTHER -> <<123>> \o Dec(a.min) \o <<44>> \o Dec(a.max) \o <<125>>)
              \o (IF a.lazy THEN <<63>> ELSE <<>>)
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RxHexC(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE RxHexN(_)
RxHexN(n) == IF n < 16 THEN <<RxHexC(n)>> ELSE Append(RxHexN(n \div 16), RxHexC(n % 16))
RxFlagC(c) == CASE c = "i" -> 105 [] c = "s" -> 115 [] c = "m" -> 109 [] c = "U" -> 85
RxFlagText(l) == [i \in DOMAIN l |-> RxFlagC(l[i])]
RECURSIVE Text(_)
Text(a) == CASE a.k = "lit" -> LitText(a.c)
             [] a.k = "any" -> <<46>>
             [] a.k = "cls" -> <<92, ClsText(a.n)>>
             [] a.k = "set" -> <<91>> \o (IF a.neg THEN <<94>> ELSE <<>>)
                               \o Flat([i \in DOMAIN a.items |-> IF a.items[i][1] = a.items[i][2] THEN SetChar(a.items[i][1])
                                        ELSE SetChar(a.items[i][1]) \o <<45>> \o SetChar(a.items[i][2])])
                               \o (IF "cl" \in DOMAIN a THEN Flat([i \in DOMAIN a.cl |-> <<92, ClsText(a.cl[i])>>]) ELSE <<>>) \o <<93>>
             [] a.k = "cat" -> Flat([i \in DOMAIN a.l |-> Text(a.l[i])])
             [] a.k = "alt" -> <<40, 63, 58>> \o Join([i \in DOMAIN a.l |-> Text(a.l[i])], <<124>>) \o <<41>>
             [] a.k = "grp" -> <<40>> \o Text(a.x) \o <<41>>
             [] a.k = "named" -> <<40, 63, 80, 60, 110, 62>> \o Text(a.x) \o <<41>>
             [] a.k = "hex" -> <<92, 120, 123>> \o RxHexN(a.c) \o <<125>>
             [] a.k = "fl" -> <<40, 63>> \o RxFlagText(a.on) \o (IF a.off = <<>> THEN <<>> ELSE <<45>> \o RxFlagText(a.off))
                              \o (IF a.bare THEN <<41>> \o Text(a.x) ELSE <<58>> \o Text(a.x) \o <<41>>)
             [] a.k = "bot" -> <<92, 65>>
             [] a.k = "eot" -> <<92, 122>>
             [] a.k = "rep" -> Text(a.x) \o RepText(a)
             [] a.k = "bol" -> <<94>>
             [] a.k = "eol" -> <<36>>
             [] a.k = "wb" -> <<92, 98>>
             [] a.k = "nwb" -> <<92, 66>>
=============================================================================
