------------------------------- MODULE MCVars -------------------------------
(* All histories of supplying parts and reading variables, for small parts: C12-C15 on the specification. *)
EXTENDS Vars
CONSTANTS MaxOps, MemLims, Lims

VARIABLES n, acc, last   \* acc: body bytes accepted; last: variable just read
mcv == <<vvars, n, acc, last>>

A == 97
Pieces == {<<97,61,49>>, <<38>>, <<38,98>>, <<37,54>>}
U(m) == [pre |-> <<>>, path |-> <<47, A>>, hasq |-> TRUE, query |-> <<A, 61, 50>>, hasf |-> FALSE, frag |-> <<>>, method |-> m, proto |-> <<49>>]
H(ct) == [h |-> IF ct = <<>> THEN <<>> ELSE <<[n |-> CTYPE, vs |-> <<ct>>]>>]
Mp == [pre |-> <<>>, parts |-> <<>>, bd |-> <<45>>, epi |-> <<>>]
Ex(s) == [re |-> FALSE, s |-> s, tree |-> [k |-> "any"]]
Re(t) == [re |-> TRUE, s |-> <<>>, tree |-> t]
W(v, c) == [v |-> v, count |-> c, inc |-> <<>>, exc |-> <<>>]
SelX == {Ex(<<A>>), Ex(<<98>>), Re([k |-> "lit", c |-> A]), Re([k |-> "any"])}
Names1 == BodyVars \cup {"RESPONSE_BODY", "ARGS_GET"}

(* one way to deliver what is due *)
Canon(w) == IF w.v \in Collections THEN LET gs == Select(w, Entries(w.v)) IN Flat([i \in DOMAIN gs |-> gs[i].vals])
            ELSE CHOOSE x \in Scalar(w.v) : TRUE

Init == /\ \E m \in MemLims, l \in Lims, a \in BOOLEAN : VInit([reqacc |-> a, resacc |-> a, mp |-> Mp], m, l, 2)
        /\ n = 0 /\ acc = <<>> /\ last = ""
Next ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \/ (\E m \in {POST, <<71>>} : Supply("url", U(m))) /\ UNCHANGED acc /\ last' = ""
     \/ (\E c \in {URLENC, <<116>>, <<>>} : Supply("reqh", H(c))) /\ UNCHANGED acc /\ last' = ""
     \/ (\E p \in Pieces : AppendBody("req", p) /\ acc' = acc \o Take(p, out'.n)) /\ last' = ""
     \/ (\E a \in {[req |-> ~set.reqacc, res |-> set.resacc], [req |-> set.reqacc, res |-> ~set.resacc]} : SetAccess(a)) /\ UNCHANGED acc /\ last' = ""
     \/ AppendBody("res", <<A>>) /\ UNCHANGED acc /\ last' = ""
     \/ (\E v \in Names1 : Fetch(W(v, FALSE), Canon(W(v, FALSE))) /\ last' = v) /\ UNCHANGED acc
Spec == Init /\ [][Next]_mcv

(* C12: a body that is inspected is delivered whole, or the transaction is aborted; an abort has its reason and stays *)
WholeOrAbort == (last \in BodyVars /\ ReqForm) => (vabort = 413 \/ (Scalar("REQUEST_BODY") = {<<acc>>} /\ BodyGroups = GroupsOf(FormPairs(acc))))
AbortReason == /\ (vabort = 413 => buf["req"].spilled /\ Len(acc) > buf["req"].memlim)
               /\ vabort \in {0, 413}
AbortStays == [][vabort # 0 => vabort' = vabort]_mcv
NothingWithoutAccess == (~set.reqacc \/ ~CarriesBody \/ acc = <<>>) => BodyGroups = <<>> /\ Scalar("REQUEST_BODY") = {<<>>} /\ AbortOf("ARGS") = 0
FetchKeeps == [][last' # "" => /\ Content(buf'["req"]) = Content(buf["req"]) /\ buf'["req"].pos = buf["req"].pos /\ inp' = inp]_mcv
(* C13: the arguments do not depend on the split into writes: they are those of the accepted text *)
SplitFree == Content(buf["req"]) = acc
(* C14 *)
CountAgrees == \A v \in Collections : MayDeliver(W(v, TRUE), <<Dec(Len(Canon(W(v, FALSE))))>>)
Partition == \A v \in Collections, x \in SelX :
               LET all == Entries(v)
                   in == Select([W(v, FALSE) EXCEPT !.inc = <<x>>], all)
                   ex == Select([W(v, FALSE) EXCEPT !.exc = <<x>>], all)
               IN /\ Range(in) \cap Range(ex) = {} /\ Range(in) \cup Range(ex) = Range(all)
                  /\ Select([W(v, FALSE) EXCEPT !.inc = <<x>>, !.exc = <<x>>], all) = <<>>
NamesAgree == \A p \in {<<"ARGS_GET", "ARGS_GET_NAMES">>, <<"ARGS_POST", "ARGS_POST_NAMES">>, <<"ARGS", "ARGS_NAMES">>, <<"REQUEST_HEADERS", "REQUEST_HEADERS_NAMES">>} :
                [i \in DOMAIN Entries(p[1]) |-> <<Entries(p[1])[i].name>>] = [i \in DOMAIN Entries(p[2]) |-> Entries(p[2])[i].vals]
(* C15 *)
Documented == ~Has("url") => \A v \in {"REQUEST_URI", "QUERY_STRING", "REQUEST_METHOD"} : Scalar(v) = {<<>>, <<<<>>>>}
=============================================================================
