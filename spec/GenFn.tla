------------------------------- MODULE GenFn -------------------------------
(* Enumerates all short inputs with what the specification says about them, for replay; MCFn checks them as well. *)
EXTENDS Fn, Json
CONSTANTS T, Fns, Alpha, MaxLen

(* 0, -0, 1, -1, 10, 99, +9, -11, 2^63 - 1, 2^63 *)
Args == {<<48>>, <<45, 48>>, <<49>>, <<45, 49>>, <<49, 48>>, <<57, 57>>, <<43, 57>>, <<45, 49, 49>>,
         <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>, <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>}

VARIABLES t
Strings(n) == UNION {[1..k -> Alpha] : k \in 0..n}
ArgOf(f) == IF T = "num" THEN Args ELSE {<<>>}
Init == t \in {[t |-> T, fn |-> f, arg |-> a, in |-> s] : f \in Fns, a \in UNION {ArgOf(f) : f \in Fns}, s \in Strings(MaxLen)}
Next == UNCHANGED t
Pred == IF T = "trans" THEN [e |-> "out", b |-> Apply(t.fn, t.in)]
        ELSE [e |-> "holds", m |-> Compare2(t.fn, t.in, t.arg)]
Emit == PrintT("GEN " \o ToJson(t @@ [pred |-> <<Pred, Pred>>]))

(* properties of the functions themselves *)
Idempotent == T = "trans" /\ t.fn \notin {"urlDecode", "urlDecodeUni"} => Apply(t.fn, Apply(t.fn, t.in)) = Apply(t.fn, t.in)
KeepsOthers ==
  CASE T = "num" -> TRUE
    [] t.fn = "lowercase" -> Len(Apply(t.fn, t.in)) = Len(t.in) /\ \A i \in DOMAIN t.in : Apply(t.fn, t.in)[i] # t.in[i] => IsUpper(t.in[i])
    [] t.fn \in {"removeWhitespace", "compressWhitespace"} ->
         SelectSeq(Apply(t.fn, t.in), LAMBDA c : ~IsWs(c)) = SelectSeq(t.in, LAMBDA c : ~IsWs(c))
    [] t.fn \in {"removeNulls", "replaceNulls"} -> \A i \in DOMAIN Apply(t.fn, t.in) : Apply(t.fn, t.in)[i] # 0
    [] OTHER -> TRUE
NoRuns == T = "trans" /\ t.fn = "compressWhitespace" =>
            \A i \in 1..(Len(Apply(t.fn, t.in)) - 1) : ~(IsWs(Apply(t.fn, t.in)[i]) /\ IsWs(Apply(t.fn, t.in)[i + 1]))
Hex1(n) == IF n < 10 THEN 48 + n ELSE 55 + n
EscapeAll(s) == Flat([i \in DOMAIN s |-> <<37, Hex1(s[i] \div 16), Hex1(s[i] % 16)>>])
RoundTrip == T = "trans" /\ t.fn \in {"urlDecode", "urlDecodeUni"} => Apply(t.fn, EscapeAll(t.in)) = t.in
OnePass == T = "trans" /\ t.fn \in {"urlDecode", "urlDecodeUni"} /\ ~(\E i \in DOMAIN t.in : t.in[i] = 37) =>
             Apply(t.fn, t.in) = [i \in DOMAIN t.in |-> IF t.in[i] = 43 THEN 32 ELSE t.in[i]]
Trichotomy == T = "num" =>
  /\ Cardinality({o \in {"lt", "eq", "gt"} : Compare2(o, t.in, t.arg)}) = 1
  /\ Compare2("ge", t.in, t.arg) = ~Compare2("lt", t.in, t.arg)
  /\ Compare2("le", t.in, t.arg) = ~Compare2("gt", t.in, t.arg)
(* with numbers as TLA+ has them *)
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE Value(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
NumberOf(s) == IF ~IsInteger(s) THEN 0 ELSE LET u == Trim(s) IN IF u[1] = 45 THEN -Value(Tail(u)) ELSE Value(Unsigned(u))
AsNumbers == T = "num" /\ Len(t.arg) < 9 =>
  /\ Compare2("lt", t.in, t.arg) = (NumberOf(t.in) < NumberOf(t.arg))
  /\ Compare2("eq", t.in, t.arg) = (NumberOf(t.in) = NumberOf(t.arg))
=============================================================================
