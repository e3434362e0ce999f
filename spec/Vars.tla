-------------------------------- MODULE Vars --------------------------------
(***************************************************************************)
(* What the variables of the rule language deliver at any moment of a      *)
(* transaction: C12-C15.  The state is what the embedder has supplied so   *)
(* far, the body buffers (Buffer.tla) and the abort verdict; fetching a    *)
(* variable reads it and may abort the transaction.                        *)
(***************************************************************************)
EXTENDS Buffer, Rx

VARIABLES
  set,    \* [reqacc, resacc: body access; mp: the parts the multipart body was made from]
  inp,    \* what was supplied: [conn, url, reqh, resh : Seq of at most one record]
  vabort, \* status of the abort, 0 if none
  seen    \* what a malformed multipart body gave so far: Seq of [key, vals]
vvars == <<bvars, set, inp, vabort, seen>>

POST == <<80,79,83,84>>
PUT == <<80,85,84>>
PATCH == <<80,65,84,67,72>>
CTYPE == <<67,111,110,116,101,110,116,45,84,121,112,101>>
CLENGTH == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104>>
COOKIE == <<67,111,111,107,105,101>>
URLENC == <<97,112,112,108,105,99,97,116,105,111,110,47,120,45,119,119,119,45,102,111,114,109,45,117,114,108,101,110,99,111,100,101,100>>
MULTI == <<109,117,108,116,105,112,97,114,116,47>>
OCTET == <<97,112,112,108,105,99,97,116,105,111,110,47,111,99,116,101,116,45,115,116,114,101,97,109>>

Has(f) == inp[f] # <<>>
The(f) == inp[f][1]

(* header of a request or response: sequence of [n |-> name, vs |-> values] with distinct names *)
HeaderGroups(h) == [i \in DOMAIN h |-> [name |-> h[i].n, vals |-> h[i].vs]]
ValuesOf(h, n) == LET m == {i \in DOMAIN h : h[i].n = n} IN IF m = {} THEN <<>> ELSE h[CHOOSE i \in m : TRUE].vs
GetFirst(h, n) == IF ValuesOf(h, n) = <<>> THEN <<>> ELSE ValuesOf(h, n)[1]

(* media type of a Content-Type value *)
MediaType(v) == LowerS(Trim(SubSeq(v, 1, IndexOf(v, {59}) - 1)))

----------------------------------------------------------------------------
(* pairs: a sequence of <<name, value>> becomes groups by name, values in order *)

RECURSIVE Names(_)
Names(ps) == IF ps = <<>> THEN <<>>
             ELSE LET r == Names(SubSeq(ps, 1, Len(ps) - 1)) IN IF ps[Len(ps)][1] \in Range(r) THEN r ELSE Append(r, ps[Len(ps)][1])
Values2(ps, n) == LET q == SelectSeq(ps, LAMBDA p : p[1] = n) IN [i \in DOMAIN q |-> q[i][2]]
GroupsOf(ps) == LET ns == Names(ps) IN [i \in DOMAIN ns |-> [name |-> ns[i], vals |-> Values2(ps, ns[i])]]

(* application/x-www-form-urlencoded: pieces between & ; malformed ones (a semicolon, a broken escape) are no pairs *)
RECURSIVE FormDecode(_)
FormDecode(s) == IF s = <<>> THEN <<>>
                 ELSE IF s[1] = 37 THEN <<HexVal(s[2]) * 16 + HexVal(s[3])>> \o FormDecode(Drop(s, 3))
                 ELSE <<IF s[1] = 43 THEN 32 ELSE s[1]>> \o FormDecode(Tail(s))
RECURSIVE WellEscaped(_)
WellEscaped(s) == LET i == IndexOf(s, {37}) IN
                  i > Len(s) \/ (i + 2 <= Len(s) /\ IsHex(s[i + 1]) /\ IsHex(s[i + 2]) /\ WellEscaped(Drop(s, i + 2)))
PieceOK(p) == p # <<>> /\ 59 \notin Range(p) /\ WellEscaped(SubSeq(p, 1, IndexOf(p, {61}) - 1)) /\ WellEscaped(Drop(p, IndexOf(p, {61})))
FormPairs(s) == LET q == SelectSeq(Split(s, 38), LAMBDA p : PieceOK(p))
                IN [i \in DOMAIN q |-> <<FormDecode(SubSeq(q[i], 1, IndexOf(q[i], {61}) - 1)), FormDecode(Drop(q[i], IndexOf(q[i], {61})))>>]

(* multipart/form-data: parts [n: name, f: is a file, v: value]; the text of a body of such parts *)
CRLF == <<13, 10>>
PartText(p, bd) == <<45, 45>> \o bd \o CRLF
   \o <<67,111,110,116,101,110,116,45,68,105,115,112,111,115,105,116,105,111,110,58,32,102,111,114,109,45,100,97,116,97,59,32,110,97,109,101,61,34>> \o p.n \o <<34>>
   \o (IF p.f THEN <<59,32,102,105,108,101,110,97,109,101,61,34,117,112,46,98,105,110,34>> \o CRLF \o <<67,111,110,116,101,110,116,45,84,121,112,101,58,32,97,112,112,108,105,99,97,116,105,111,110,47,120,45,116,104,105,110,103>> ELSE <<>>)
   \o CRLF \o CRLF \o p.v \o CRLF
RECURSIVE PartsText(_, _)
PartsText(ps, bd) == IF ps = <<>> THEN <<>> ELSE PartText(Head(ps), bd) \o PartsText(Tail(ps), bd)
MultipartText(m) == m.pre \o PartsText(m.parts, m.bd) \o <<45, 45>> \o m.bd \o <<45, 45>> \o CRLF \o m.epi
MultipartPairs(m) == LET q == SelectSeq(m.parts, LAMBDA p : ~p.f) IN [i \in DOMAIN q |-> <<q[i].n, q[i].v>>]

(* cookies *)
CookiePair(p) == LET i == IndexOf(p, {61}) IN IF i > Len(p) THEN <<p, <<>>>> ELSE <<SubSeq(p, 1, i - 1), Drop(p, i)>>
CookiePairs(lines) ==
  LET pieces == Flat([i \in DOMAIN lines |-> Split(lines[i], 59)])
      q == SelectSeq([i \in DOMAIN pieces |-> Trim(pieces[i])], LAMBDA p : p # <<>>)
  IN [i \in DOMAIN q |-> CookiePair(q[i])]

----------------------------------------------------------------------------
(* the URL: supplied as path, query and fragment in their written form *)
RECURSIVE PathDecode(_)
PathDecode(s) == IF s = <<>> THEN <<>>
                 ELSE IF s[1] = 37 THEN <<HexVal(s[2]) * 16 + HexVal(s[3])>> \o PathDecode(Drop(s, 3))
                 ELSE <<s[1]>> \o PathDecode(Tail(s))
RequestUri(u) == u.path \o (IF u.hasq THEN <<63>> \o u.query ELSE <<>>) \o (IF u.hasf THEN <<35>> \o u.frag ELSE <<>>)
Query(u) == IF u.hasq THEN u.query ELSE <<>>
IsSlash(c) == c \in {47, 92}
RECURSIVE StripSlash(_)
StripSlash(s) == IF s # <<>> /\ IsSlash(s[Len(s)]) THEN StripSlash(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE AfterSlash(_)
AfterSlash(s) == LET i == IndexOf(s, {47, 92}) IN IF i > Len(s) THEN s ELSE AfterSlash(Drop(s, i))
Basename(p) == LET b == AfterSlash(StripSlash(p)) IN IF b = <<>> THEN <<47>> ELSE b

----------------------------------------------------------------------------
(* bodies *)

CarriesBody == Has("url") /\ The("url").method \in {POST, PUT, PATCH}
ReqCT == IF Has("reqh") THEN MediaType(GetFirst(The("reqh").h, CTYPE)) ELSE <<>>
ReqOpen == CarriesBody /\ set.reqacc /\ Length(buf["req"]) > 0
ReqForm == ReqOpen /\ ReqCT = URLENC
ReqMulti == ReqOpen /\ HasPrefix(ReqCT, MULTI)
ResOpen == set.resacc /\ Length(buf["res"]) > 0

(* the pairs of the request body as groups; a malformed multipart body gives what it gave the first time *)
MultiWellFormed == Content(buf["req"]) = MultipartText(set.mp)
BodyGroups == IF ReqForm THEN (IF buf["req"].spilled THEN <<>> ELSE GroupsOf(FormPairs(Content(buf["req"]))))
              ELSE IF ReqMulti THEN (IF MultiWellFormed THEN GroupsOf(MultipartPairs(set.mp)) ELSE <<>>)
              ELSE <<>>
BodyAbort == IF ReqForm /\ buf["req"].spilled THEN 413 ELSE 0

----------------------------------------------------------------------------
(* selection: C14 *)

(* a selector is [re |-> is a regular expression, s |-> text, tree |-> its tree] *)
Selects(x, n) == IF x.re THEN Search(x.tree, n) ELSE x.s = n
Chosen(w, n) == /\ w.inc = <<>> \/ \E i \in DOMAIN w.inc : Selects(w.inc[i], n)
                /\ ~ \E i \in DOMAIN w.exc : Selects(w.exc[i], n)
Select(w, gs) == SelectSeq(gs, LAMBDA g : Chosen(w, g.name))
AsNames(gs) == [i \in DOMAIN gs |-> [name |-> gs[i].name, vals |-> <<gs[i].name>>]]

GetGroups == IF Has("url") THEN GroupsOf(FormPairs(Query(The("url")))) ELSE <<>>
ReqHeaders == IF Has("reqh") THEN HeaderGroups(The("reqh").h) ELSE <<>>
ResHeaders == IF Has("resh") THEN HeaderGroups(The("resh").h) ELSE <<>>
Cookies == IF Has("reqh") THEN GroupsOf(CookiePairs(ValuesOf(The("reqh").h, COOKIE))) ELSE <<>>

Collections == {"ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "ARGS", "ARGS_NAMES", "REQUEST_HEADERS",
                "REQUEST_HEADERS_NAMES", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES"}
BodyVars == {"ARGS", "ARGS_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "REQUEST_BODY"}

Entries(v) == CASE v = "ARGS_GET" -> GetGroups
                [] v = "ARGS_GET_NAMES" -> AsNames(GetGroups)
                [] v = "ARGS_POST" -> BodyGroups
                [] v = "ARGS_POST_NAMES" -> AsNames(BodyGroups)
                [] v = "ARGS" -> GetGroups \o BodyGroups
                [] v = "ARGS_NAMES" -> AsNames(GetGroups) \o AsNames(BodyGroups)
                [] v = "REQUEST_HEADERS" -> ReqHeaders
                [] v = "REQUEST_HEADERS_NAMES" -> AsNames(ReqHeaders)
                [] v = "REQUEST_COOKIES" -> Cookies
                [] v = "REQUEST_COOKIES_NAMES" -> AsNames(Cookies)
                [] v = "RESPONSE_HEADERS" -> ResHeaders
                [] v = "RESPONSE_HEADERS_NAMES" -> AsNames(ResHeaders)

(* a part that was not supplied: nothing, or the documented empty value *)
Scalar(v) ==
  CASE v = "REMOTE_ADDR" -> IF Has("conn") THEN {<<The("conn").ip>>} ELSE {<<>>, <<<<>>>>}
    [] v = "REQUEST_METHOD" -> IF Has("url") THEN {<<The("url").method>>} ELSE {<<>>, <<<<>>>>}
    [] v = "REQUEST_PROTOCOL" -> IF Has("url") THEN {<<The("url").proto>>} ELSE {<<>>, <<<<>>>>}
    [] v = "REQUEST_URI" -> IF Has("url") THEN {<<RequestUri(The("url"))>>} ELSE {<<>>, <<<<>>>>}
    [] v = "REQUEST_FILENAME" -> IF Has("url") THEN {<<PathDecode(The("url").path)>>} ELSE {<<>>, <<<<>>>>}
    [] v = "REQUEST_BASENAME" -> IF Has("url") THEN {<<Basename(PathDecode(The("url").path))>>} ELSE {<<>>, <<<<>>>>}
    [] v = "QUERY_STRING" -> IF Has("url") THEN {<<Query(The("url"))>>} ELSE {<<>>, <<<<>>>>}
    [] v = "REQUEST_BODY" -> IF ReqForm /\ ~buf["req"].spilled THEN {<<Content(buf["req"])>>} ELSE {<<>>}
    [] v = "RESPONSE_BODY" -> IF ResOpen /\ ~buf["res"].spilled THEN {<<Content(buf["res"])>>} ELSE {<<>>}
    [] v = "RESPONSE_STATUS" -> IF Has("resh") THEN {<<Dec(The("resh").code)>>} ELSE {<<>>, <<<<48>>>>}
    [] v = "RESPONSE_PROTOCOL" -> IF Has("resh") THEN {<<The("resh").proto>>} ELSE {<<>>, <<<<>>>>}
    [] v = "RESPONSE_CONTENT_LENGTH" ->
         IF Has("resh") THEN {IF GetFirst(The("resh").h, CLENGTH) = <<>> THEN <<<<48>>>> ELSE <<GetFirst(The("resh").h, CLENGTH)>>}
         ELSE {<<>>, <<<<48>>>>}
    [] v = "RESPONSE_CONTENT_TYPE" ->
         IF Has("resh") THEN {IF GetFirst(The("resh").h, CTYPE) = <<>> THEN <<OCTET>> ELSE <<MediaType(GetFirst(The("resh").h, CTYPE))>>}
         ELSE {<<>>, <<OCTET>>}

(* vals is the values of the groups in some order that keeps the order within each group *)
RECURSIVE Interleaves(_, _)
Interleaves(vals, gs) ==
  IF vals = <<>> THEN \A i \in DOMAIN gs : gs[i] = <<>>
  ELSE \E i \in DOMAIN gs : /\ gs[i] # <<>> /\ gs[i][1] = vals[1]
                            /\ \A k \in 1..(i - 1) : gs[k] # gs[i]
                            /\ Interleaves(Tail(vals), [gs EXCEPT ![i] = Tail(@)])
RECURSIVE SumLen(_)
SumLen(gs) == IF gs = <<>> THEN 0 ELSE Len(Head(gs)) + SumLen(Tail(gs))

(* the variable w = [v, count, inc, exc] may deliver vals now *)
MayDeliver(w, vals) ==
  IF w.v \in Collections
  THEN LET gs == Select(w, Entries(w.v))
           vs == [i \in DOMAIN gs |-> gs[i].vals]
       IN IF w.count THEN vals = <<Dec(SumLen(vs))>> ELSE Len(vals) = SumLen(vs) /\ Interleaves(vals, vs)
  ELSE IF w.count THEN \E x \in Scalar(w.v) : vals = <<Dec(Len(x))>> ELSE vals \in Scalar(w.v)

(* a malformed multipart body: what it gives is left open, but it is the same at every read *)
Vague(w) == ReqMulti /\ ~MultiWellFormed /\ w.v \in BodyVars \ {"REQUEST_BODY"}
KeyOf(w) == [v |-> w.v, inc |-> w.inc, exc |-> w.exc]
Earlier(w) == {i \in DOMAIN seen : seen[i].key = KeyOf(w)}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Permutation(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
MayDeliverVague(w, vals) == \A i \in Earlier(w) : IF w.count THEN vals = <<Dec(Len(seen[i].vals))>> ELSE Permutation(vals, seen[i].vals)
Delivers(w, vals) == IF Vague(w) THEN MayDeliverVague(w, vals) ELSE MayDeliver(w, vals)

----------------------------------------------------------------------------
VInit(s, memlim, reqlim, reslim) ==
  /\ set = s /\ inp = [conn |-> <<>>, url |-> <<>>, reqh |-> <<>>, resh |-> <<>>]
  /\ vabort = 0 /\ seen = <<>>
  /\ buf = [b \in {"req", "res"} |-> IF b = "req" THEN NewBuf(memlim, reqlim) ELSE NewBuf(reslim, reslim)]
  /\ dirok = TRUE /\ full = FALSE /\ out = Ret(0, "", <<>>)

Supply(f, x) == inp' = [inp EXCEPT ![f] = <<x>>] /\ seen' = <<>> /\ UNCHANGED <<bvars, set, vabort>>
AppendBody(b, p) == Write(b, p) /\ UNCHANGED <<set, inp, vabort, seen>>
RawRead(n, k) == Read("req", n, k) /\ UNCHANGED <<set, inp, vabort, seen>>
RawSeek(off, wh) == Seek("req", off, wh) /\ UNCHANGED <<set, inp, vabort, seen>>
(* body access is switched while the transaction runs *)
SetAccess(a) == set' = [set EXCEPT !.reqacc = a.req, !.resacc = a.res] /\ UNCHANGED <<bvars, inp, vabort, seen>>
Result == UNCHANGED vvars

(* fetching a body variable closes the body for writing and may abort; nothing else changes *)
Touches(v) == IF v = "REQUEST_BODY" THEN ReqForm ELSE v \in BodyVars /\ (ReqForm \/ ReqMulti)
AbortOf(v) == IF v \in BodyVars /\ BodyAbort # 0 THEN BodyAbort
              ELSE IF v = "RESPONSE_BODY" /\ ResOpen /\ buf["res"].spilled THEN 500 ELSE 0
Fetch(w, vals) ==
  /\ Delivers(w, vals)
  /\ buf' = [b \in DOMAIN buf |-> IF (b = "req" /\ Touches(w.v)) \/ (b = "res" /\ w.v = "RESPONSE_BODY" /\ ResOpen)
                                  THEN [buf[b] EXCEPT !.readed = TRUE] ELSE buf[b]]
  /\ vabort' = IF AbortOf(w.v) # 0 THEN AbortOf(w.v) ELSE vabort
  /\ seen' = IF Vague(w) /\ ~w.count /\ Earlier(w) = {} THEN Append(seen, [key |-> KeyOf(w), vals |-> vals]) ELSE seen
  /\ UNCHANGED <<set, inp, dirok, full, out>>
=============================================================================
