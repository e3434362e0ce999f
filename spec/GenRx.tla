------------------------------- MODULE GenRx -------------------------------
(* All expressions up to a depth against all short texts, for replay on the rx operator; laws of matching. *)
EXTENDS Fn, Json, SequencesExt
CONSTANTS Alpha, MaxLen, Depth, Fl   \* Fl: the flags ("": none) that the expressions are asked under

VARIABLES t
L(c) == [k |-> "lit", c |-> c]
Rep(x, a, b, z) == [k |-> "rep", x |-> x, min |-> a, max |-> b, lazy |-> z]
Atoms == {L(97), L(98), [k |-> "any"], [k |-> "set", neg |-> TRUE, items |-> <<<<97, 97>>>>], [k |-> "bol"], [k |-> "eol"], [k |-> "cls", n |-> "w"]}
Rptable == {L(97), [k |-> "any"], [k |-> "grp", x |-> [k |-> "alt", l |-> <<L(97), [k |-> "cat", l |-> <<L(97), L(98)>>]>>]]}
Level1 == Atoms \cup {Rep(x, q[1], q[2], q[3]) : x \in Rptable, q \in {<<0, -1, FALSE>>, <<1, -1, TRUE>>, <<0, 1, FALSE>>, <<2, 2, FALSE>>, <<1, 2, FALSE>>}}
Cats(n) == [1..n -> Level1]
Level2 == UNION {{[k |-> "cat", l |-> f] : f \in Cats(n)} : n \in 1..Depth}
          \cup {[k |-> "alt", l |-> <<[k |-> "cat", l |-> <<a, b>>], c>>] : a \in Atoms, b \in Atoms, c \in Level1}
Texts == UNION {[1..k -> Alpha] : k \in 0..MaxLen}

(* one behaviour per expression: it is asked for every text *)
Flagged(x, f) == [k |-> "fl", on |-> <<f>>, off |-> <<>>, bare |-> TRUE, x |-> x]
(* flags for a part of the expression, set or taken back *)
Parts == {[k |-> "cat", l |-> <<a, [k |-> "fl", on |-> <<f>>, off |-> IF f = "i" THEN <<"s">> ELSE <<"i">>, bare |-> FALSE, x |-> b]>>]
           : a \in Atoms, b \in Level1, f \in Fl \ {""}}
Init == t \in UNION {IF f = "" THEN Level2 ELSE {Flagged(x, f) : x \in Level2 \cup Parts} : f \in Fl}
Next == UNCHANGED t
TextSeq == SetToSeq(Texts)
Emit == PrintT("GEN " \o ToJson([t |-> "rxs", arg |-> Text(t), ins |-> TextSeq,
                                 pred |-> [n \in 1..2 |-> [e |-> "hits", m |-> [i \in DOMAIN TextSeq |-> Search(t, TextSeq[i])]]]]))
CatIsSequence == t.k = "cat" /\ t.l # <<>> =>
  \A s \in Texts : Search(t, s) = (\E i \in 0..Len(s) : Ends([k |-> "cat", l |-> Tail(t.l)], s, Ends(t.l[1], s, {i})) # {})
AltIsUnion == t.k = "alt" => \A s \in Texts : Search(t, s) = (\E i \in DOMAIN t.l : Search(t.l[i], s))
=============================================================================
