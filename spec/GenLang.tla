------------------------------ MODULE GenLang ------------------------------
(* Enumerates small rule texts for C20-C22; the trace specification decides what each of them has to load. *)
EXTENDS SecLang, Json
CONSTANTS Family, Alpha, MaxLen

VARIABLE sc
gv == <<vvars, lvars, sc>>

Strings(k) == UNION {[1..n -> Alpha] : n \in 0..k}
One(t) == [nsets |-> 1, nengs |-> 1, rxs |-> <<>>, ops |-> <<[o |-> "add", set |-> 1, eng |-> 1, t |-> t, how |-> "new"], [o |-> "exec", set |-> 1, eng |-> 1, t |-> <<>>, how |-> ""],
                                        [o |-> "dump", set |-> 1, eng |-> 1, t |-> <<>>, how |-> ""]>>]

(* an argument written in every way in every position, and everything that can stand between a word and its argument *)
Q == <<34>>
ArgTexts(s) == {Asc("SecRule ARGS ") \o s \o Asc(" id:1"),
                Asc("SecRule ARGS a id:1,msg:") \o s,
                Asc("SecRule ARGS a ") \o Q \o Asc("id:1,msg:") \o s \o Q \o <<10>>,
                Asc("SecRule ARGS 'a' 'tag:") \o s \o Asc("' SecRuleEngine Off"),
                Asc("SecRuleEngine") \o s \o Asc("Off"),
                Asc("SecRule ARGS a 'id:3'") \o s \o Asc("SecRuleEngine Off"),
                Asc("SecRule ") \o s \o Asc("ARGS") \o s \o Asc(" 'abc' id:1")}

(* sequences of pieces of text *)
Pieces == <<Asc("SecRuleEngine"), Asc("Off"), Asc("secRULE ARGS"), <<32>>, <<10>>, <<92, 10>>, <<92, 13, 10>>, <<34>>, Asc("id:4"), <<0>>>>
RECURSIVE Pasted(_)
Pasted(f) == IF f = <<>> THEN <<>> ELSE Pieces[Head(f)] \o Pasted(Tail(f))

(* rules *)
Rule(v, o, a) == Asc("SecRule ") \o Q \o v \o Q \o <<32>> \o Q \o o \o Q \o <<32>> \o Q \o a \o Q \o <<10>>
Id7 == Asc("id:7")
Prefixes == {<<>>, <<33>>, <<38>>}
Sels == {"", ":a", ".a", ":/^a$/", ":/b/", ":", ":a:b", ":X-A"}
VarSingles == {p \o Asc(n) \o Asc(s) : p \in Prefixes, n \in VarNames \cup {"XML", "args", "ARGSX"}, s \in Sels}
Forms(n) == {Asc(n), Asc(n) \o Asc(":a"), <<33>> \o Asc(n) \o Asc(":a"), <<38>> \o Asc(n), <<38>> \o Asc(n) \o Asc(":ab"), Asc(n) \o Asc(":/b/"), <<33>> \o Asc(n) \o Asc(":/a/")}
VarPairs == UNION {{x \o <<124>> \o y : x \in Forms(n), y \in Forms(n)} : n \in Collections} \cup {x \o <<44>> \o y : x \in Forms("ARGS_GET"), y \in Forms("ARGS_POST")}
VarRxs == <<[s |-> Asc("^a$"), ok |-> TRUE, tree |-> [k |-> "cat", l |-> <<[k |-> "bol"], [k |-> "lit", c |-> 97], [k |-> "eol"]>>]]>>
Ops == {p \o Asc(n) \o Asc(a) : p \in {<<>>, <<33>>}, n \in {"@rx", "@eq", "@ge", "@gt", "@le", "@lt", "@", "@EQ", "@within", "abc", "", " @eq"},
                                a \in {"", " 1", " a", " -1", "  2", " 1 ", " 1a", " +12", " 9999999999999999999999", " -0", "1", " 1,2"}}
ActWords == ActionNames \cup Unsupported \cup {"", "foo", "DENY", "Id", "nolog"}
ActArgs == {"", ":", ":1", ":x", ":'1'", ":phase", ": 2 ", ":'a,b'", ":lowercase", ":\\\"q\\\"", ":'it's'", ":''", ":'open", ":request", ":-3", ":none:1", ":404", ":65536", ": 'response' "}
Acts == UNION {{Asc(w) \o Asc(a), Asc(w) \o Asc(a) \o Asc(",deny"), Asc("id:7,") \o Asc(w) \o Asc(a), Asc("tag:'x',") \o Asc(w) \o Asc(a) \o Asc(", msg:'y,z'")} : w \in ActWords, a \in ActArgs}
RECURSIVE TList(_)
TList(f) == IF f = <<>> THEN <<>> ELSE Asc(",t:") \o Asc(Head(f)) \o TList(Tail(f))

(* texts of rules, chains and settings: by number; the id of a rule is its place *)
Dir(k, i) == CASE k = 1 -> Asc("SecRule ARGS_GET a id:") \o Dec(i) \o Asc(",phase:2\n")
               [] k = 2 -> Asc("SecRule ARGS_GET a 'id:") \o Dec(i) \o Asc(",phase:3,chain,deny'\n")
               [] k = 3 -> Asc("SecRule ARGS_POST b chain,id:") \o Dec(i) \o Asc(",phase:1\n")
               [] k = 4 -> Asc("SecRuleEngine DetectionOnly\n")
               [] k = 5 -> Asc("SecRuleEngine On\nSecRequestBodyAccess On\n")
               [] k = 6 -> Asc("SecRequestBodyAccess Off SecResponseBodyAccess On\n")
               [] k = 7 -> Asc("SecRule ARGS_GET a id:") \o Dec(i) \o Asc(",deny:x\n")
RECURSIVE Dirs(_, _)
Dirs(f, i) == IF f = <<>> THEN <<>> ELSE Dir(Head(f), i) \o Dirs(Tail(f), i + 1)
Op(o, s, e, t) == [o |-> o, set |-> s, eng |-> e, t |-> t, how |-> ""]
(* two texts into one set or into two, one engine executing both or one engine each; the first set is executed before and after *)
Two(f, k, sets, nengs) ==
  LET t1 == Dirs(SubSeq(f, 1, k), 1)
      t2 == Dirs(Drop(f, k), k + 1)
  IN [nsets |-> 2, nengs |-> 2, rxs |-> <<>>,
      ops |-> <<Op("add", 1, 1, t1)>> \o (IF sets = 2 THEN <<Op("exec", 1, 1, <<>>)>> ELSE <<>>) \o <<Op("add", sets, 1, t2), Op("exec", sets, nengs, <<>>), Op("dump", 1, 1, <<>>), Op("dump", 1, 2, <<>>)>>]

RulePar(v, o, a) == [One(Rule(v, o, a)) EXCEPT !.rxs = VarRxs]
Init == /\ CASE Family = "arg" -> \E s \in Strings(MaxLen) : \E t \in ArgTexts(s) : sc = One(t)
             [] Family = "paste" -> \E n \in 0..MaxLen : \E f \in [1..n -> 1..Len(Pieces)] : \E t \in {Pasted(f), Pieces[1] \o Pasted(f) \o Pieces[2], Pieces[3] \o Pasted(f) \o Asc(" b id:5")} : sc = One(t)
             [] Family = "var" -> \E v \in VarSingles \cup VarPairs : sc = RulePar(v, Asc("a"), Id7)
             [] Family = "op" -> \E o \in Ops : sc = RulePar(Asc("ARGS"), o, Id7)
             [] Family = "act" -> \E a \in Acts : sc = RulePar(Asc("ARGS"), Asc("a"), a)
             [] Family = "trans" -> \E n \in 1..MaxLen : \E f \in [1..n -> TransNames] : sc = RulePar(Asc("ARGS"), Asc("a"), Id7 \o TList(f))
             [] Family = "load" -> \E n \in 1..MaxLen : \E f \in [1..n -> 1..7], k \in 0..n, sets \in 1..2, nengs \in 1..2 :
                                     sc = Two(f, k, sets, nengs)
        /\ VInit([reqacc |-> TRUE, resacc |-> TRUE, mp |-> <<>>], 0, 0, 0)
        /\ LInit(<<>>, 0, 0)
Next == FALSE /\ UNCHANGED gv
Emit == PrintT("GEN " \o ToJson(sc))
=============================================================================
