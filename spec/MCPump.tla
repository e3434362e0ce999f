------------------------------- MODULE MCPump -------------------------------
(***************************************************************************)
(* Sizes.  A specification cannot be evaluated on a megabyte of text, but  *)
(* what it says about a short text often settles what it says about a long *)
(* one: making every run of two or more bytes z longer makes the result    *)
(* longer in the same places, or leaves it as it is.  The checks use this  *)
(* to judge long inputs by short ones, where Pumpable and Inert allow it; here TLC checks it on all short     *)
(* texts, for every function and a choice of expressions.                  *)
(***************************************************************************)
EXTENDS Fn
CONSTANTS Alpha, MaxLen, K    \* K: by how much a run becomes longer; more than any run of a short text

RECURSIVE RunLen(_)
RunLen(s) == IF Len(s) < 2 \/ s[1] # s[2] THEN Len(s) - (IF Len(s) >= 1 THEN Len(s) - 1 ELSE 0) ELSE 1 + RunLen(Tail(s))
Same(c, n) == [i \in 1..n |-> c]
RECURSIVE Pump(_, _)
Pump(s, z) == IF s = <<>> THEN <<>>
              ELSE LET n == RunLen(s) IN Same(s[1], IF s[1] = z /\ n >= 2 THEN n + K ELSE n) \o Pump(Drop(s, n), z)
RECURSIVE Unpump(_)
Unpump(s) == IF s = <<>> THEN <<>> ELSE LET n == RunLen(s) IN Same(s[1], n % K) \o Unpump(Drop(s, n))

Fns == {"none", "lowercase", "removeWhitespace", "compressWhitespace", "removeNulls", "replaceNulls", "urlDecode", "urlDecodeUni"}
L(c) == [k |-> "lit", c |-> c]
Cat(l) == [k |-> "cat", l |-> l]
Rep(x, m, n) == [k |-> "rep", x |-> x, min |-> m, max |-> n, lazy |-> FALSE]
Trees == {L(97), Cat(<<L(97), L(65)>>), Rep(L(97), 2, 3), Rep(L(97), 0, -1), [k |-> "bol"], [k |-> "wb"], [k |-> "nwb"], [k |-> "eol"],
          Cat(<<[k |-> "nwb"], [k |-> "eol"]>>), Cat(<<[k |-> "bol"], L(97)>>), Cat(<<L(97), [k |-> "eol"]>>), Cat(<<[k |-> "wb"], L(65), [k |-> "wb"]>>),
          Cat(<<[k |-> "nwb"], L(97)>>), Cat(<<L(97), [k |-> "nwb"]>>), [k |-> "alt", l |-> <<Cat(<<L(97), L(97)>>), [k |-> "cls", n |-> "s"]>>],
          Cat(<<[k |-> "bol"], [k |-> "eol"]>>), Cat(<<[k |-> "bol"], Rep(L(97), 0, -1), [k |-> "eol"]>>), [k |-> "nwb"], [k |-> "cls", n |-> "w"], [k |-> "any"]}
Fl(x, f) == [k |-> "fl", on |-> <<f>>, off |-> <<>>, bare |-> TRUE, x |-> x]
FlTrees == {Fl(x, f) : x \in {Cat(<<L(97), [k |-> "bol"]>>), [k |-> "bol"], [k |-> "eol"], Cat(<<L(97), [k |-> "eol"]>>), Cat(<<[k |-> "bol"], [k |-> "eol"]>>),
                              Cat(<<[k |-> "bol"], L(97)>>), Cat(<<L(65), [k |-> "nwb"], [k |-> "eol"]>>), Cat(<<[k |-> "eol"], [k |-> "bol"]>>)},
                       f \in {"i", "m"}}

VARIABLES t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alpha : t' = Append(t, c)
Functions == \A fn \in Fns : \A z \in Alpha : Pumpable(fn, z) => Unpump(Apply(fn, Pump(t, z))) = Unpump(Apply(fn, t))
Searches == \A a \in Trees \cup FlTrees : \A z \in Alpha : (z < 128 /\ Inert(a, z)) => Search(a, Pump(t, z)) = Search(a, t)
=============================================================================
