------------------------------ MODULE GenVars ------------------------------
(* Enumerates small transactions for C12-C15; the trace specification decides what the variables have to deliver. *)
EXTENDS Vars, Json
CONSTANTS Family, Alpha, MaxLen, Sels

VARIABLE sc
gv == <<vvars, sc>>

A == 97
NoX == [re |-> FALSE, s |-> <<>>, tree |-> [k |-> "any"]]
W(v, count) == [v |-> v, count |-> count, inc |-> <<>>, exc |-> <<>>]
Op(o, x) == [o |-> o, x |-> x]
App(p) == [o |-> "append", p |-> p]
RApp(p) == [o |-> "rappend", p |-> p]
Get(i) == [o |-> "fetch", i |-> i]
Url(method, hasq, q) == [pre |-> <<>>, path |-> <<47, 120>>, hasq |-> hasq, query |-> q, hasf |-> FALSE, frag |-> <<>>,
                         method |-> method, proto |-> <<49>>]
Hdr(h) == [h |-> h]
CT(v) == <<[n |-> CTYPE, vs |-> <<v>>]>>
NoMp == [pre |-> <<>>, parts |-> <<>>, bd |-> <<45>>, epi |-> <<>>]
Scen(vars, ops) == [reqacc |-> TRUE, resacc |-> TRUE, memlim |-> 100000, reqlim |-> 200000, reslim |-> 1000, mp |-> NoMp, wf |-> FALSE,
                    vars |-> vars, ops |-> ops]
(* every text as a query string, read in every form *)
QueryScen(q) ==
   Scen(<<W("ARGS_GET", FALSE), W("ARGS_GET_NAMES", FALSE), W("QUERY_STRING", FALSE), W("ARGS_GET", TRUE), W("REQUEST_URI", FALSE), W("ARGS", FALSE)>>,
        <<Get(1), Op("url", Url(POST, TRUE, q)), Get(1), Get(2), Get(3), Get(4), Get(5), Get(6)>>)

(* every text as an urlencoded body, in two writes *)
BodyScen(s, k) ==
   Scen(<<W("ARGS_POST", FALSE), W("ARGS_POST_NAMES", FALSE), W("REQUEST_BODY", FALSE), W("ARGS_POST", TRUE), W("ARGS", FALSE)>>,
        <<Op("url", Url(POST, FALSE, <<>>)), Op("reqh", Hdr(CT(URLENC))), App(SubSeq(s, 1, k)), App(Drop(s, k)),
          Get((k % 3) + 1), Get(1), Get(2), Get(3), Get(4), Get(5), Get(1)>>)

(* selections: every pair of an inclusion and an exclusion list over exact names and expressions, on every collection *)
Lit(c) == [k |-> "lit", c |-> c]
Trees == <<[k |-> "cat", l |-> <<[k |-> "bol"], Lit(A)>>], [k |-> "cat", l |-> <<Lit(A + 1), [k |-> "eol"]>>], [k |-> "any"]>>
Exact(s) == [re |-> FALSE, s |-> s, tree |-> [k |-> "any"]]
Expr(t) == [re |-> TRUE, s |-> <<47>> \o Text(t) \o <<47>>, tree |-> t]
SelSet == {Exact(<<A>>), Exact(<<A, A + 1>>), Exact(<<>>)} \cup {Expr(Trees[i]) : i \in DOMAIN Trees}
SelLists == {<<>>} \cup {<<x>> : x \in SelSet} \cup (IF Sels > 1 THEN {<<x, y>> : x, y \in SelSet} ELSE {<<Exact(<<A>>), Expr(Trees[2])>>, <<Expr(Trees[1]), Exact(<<>>)>>})
FormText == <<97,61,49,38,97,98,61,50,38,97,61,51,38,61,52,38,98,61,53>> \* a=1&ab=2&a=3&=4&b=5
CookieText == <<97,61,49,59,97,98,61,50,59,32,97,61,51,59,61,52,59,98,61,53>>
HGroups == <<[n |-> <<97>>, vs |-> <<<<49>>, <<51>>>>], [n |-> <<97, 98>>, vs |-> <<<<50>>>>], [n |-> <<>>, vs |-> <<<<52>>>>], [n |-> <<98>>, vs |-> <<<<53>>>>],
             [n |-> COOKIE, vs |-> <<CookieText>>]>>
SelScen(inc, exc) ==
   LET vs == <<"ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "ARGS", "ARGS_NAMES", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES",
               "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES">>
   IN Scen([i \in 1..24 |-> [v |-> vs[((i - 1) \div 2) + 1], count |-> i % 2 = 0, inc |-> inc, exc |-> exc]],
           <<Op("url", Url(POST, TRUE, FormText)), Op("reqh", Hdr(Append(HGroups, [n |-> CTYPE, vs |-> <<URLENC>>]))), App(FormText),
             Op("resh", [code |-> 200, proto |-> <<>>, h |-> HGroups])>> \o [i \in 1..24 |-> Get(i)])

(* limits: length of the body around the memory and the total limit, access, method, content type, first reader *)
Body(n) == [i \in 1..n |-> IF i = 2 THEN 61 ELSE A]
LimitScen(v, m, ct, n, x, ml, acc) ==
  [Scen(<<W(v, FALSE), W("REQUEST_BODY", FALSE), W("ARGS", FALSE), W("RESPONSE_BODY", FALSE)>>,
         <<Op("url", Url(m, TRUE, <<98,61,49>>)), Op("reqh", Hdr(IF ct = <<>> THEN <<>> ELSE CT(ct))), App(Body(n - x)), App(SubSeq(Body(n), n - x + 1, n)),
           Get(1), RApp(Body(n)), RApp(<<A>>), Get(2), Get(3), Get(4), Get(1)>>)
     EXCEPT !.memlim = ml, !.reqlim = 4, !.reslim = 3, !.reqacc = acc, !.resacc = acc]

Init == /\ CASE Family = "query" -> \E n \in 0..MaxLen : \E q \in [1..n -> Alpha] : sc = QueryScen(q)
             [] Family = "body" -> \E n \in 0..MaxLen : \E q \in [1..n -> Alpha], k \in 0..(IF n > 0 THEN n - 1 ELSE 0) : sc = BodyScen(q, k)
             [] Family = "select" -> \E inc \in SelLists, exc \in SelLists : sc = SelScen(inc, exc)
             [] Family = "limit" ->
                  \E v \in {"ARGS_POST", "ARGS_POST_NAMES", "ARGS", "ARGS_NAMES", "REQUEST_BODY"}, m \in {POST, PUT, PATCH, <<71,69,84>>},
                     ct \in {URLENC, <<116,47,112>>, <<>>}, n \in 0..5, x \in 0..1, ml \in {0, 2, 3, 4, 5}, acc \in BOOLEAN :
                       x <= n /\ sc = LimitScen(v, m, ct, n, x, ml, acc)
        /\ VInit([reqacc |-> TRUE, resacc |-> TRUE, mp |-> NoMp], 0, 0, 0)
Next == FALSE /\ UNCHANGED <<vvars, sc>>
(* grouping by names neither loses nor invents a pair, and keeps the order of the values of a name *)
GroupsWhole == Family = "query" =>
  LET ps == FormPairs(sc.ops[2].x.query)
      gs == GroupsOf(ps)
  IN /\ \A i, j \in DOMAIN gs : gs[i].name = gs[j].name => i = j
     /\ SumLen([i \in DOMAIN gs |-> gs[i].vals]) = Len(ps)
     /\ \A k \in DOMAIN ps : \E i \in DOMAIN gs : gs[i].name = ps[k][1] /\ gs[i].vals[Cardinality({j \in 1..k : ps[j][1] = ps[k][1]})] = ps[k][2]
Emit == PrintT("GEN " \o ToJson(sc))
=============================================================================
