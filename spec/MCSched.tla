------------------------------ MODULE MCSched ------------------------------
(* All interleavings of a few transactions, compared with what each of them does alone.  First every transaction runs by
   itself (stage 1..N) and what it showed is kept in solo; then they start anew and run interleaved in every way. *)
EXTENDS Sched, Json
CONSTANTS N, Choices, Kind

VARIABLES scn, stage, nc, hist, solo
mcv == <<schedvars, scn, stage, nc, hist, solo>>

Texts == <<
  Asc("SecRule ARGS_GET:a|!ARGS_GET:b \"^x\" \"phase:2,t:lowercase,deny,status:418\"\nSecRule ARGS_GET_NAMES \"b\" \"phase:2,log\""),
  Asc("SecRule &ARGS_GET \"@ge 2\" \"phase:2,log,chain\"\nSecRule REQUEST_HEADERS:Host \"!@rx h\" \"skip:1\"\nSecRule REQUEST_METHOD GET \"phase:2,status:451,deny\""),
  Asc("SecRule QUERY_STRING \"x\" \"phase:2,allow:phase,log\"\nSecRule REQUEST_URI \"q\" \"phase:2,deny\""),
  Asc("SecRuleEngine DetectionOnly\nSecRule ARGS \"x\" \"phase:2,log,deny,t:urlDecode,t:removeWhitespace\"\nSecRule REQUEST_HEADERS \"H\" \"phase:2,t:lowercase,log\""),
  Asc("SecRequestBodyAccess On\nSecRule ARGS_POST \"^x\" \"phase:3,deny\""),
  Asc("SecRequestBodyAccess On\nSecRule REQUEST_BODY|ARGS_POST:a \"y\" \"phase:3,log,status:99\""),
  Asc("SecRule REMOTE_ADDR \"^1\" \"phase:1,deny,log\""),
  Asc("SecRule REMOTE_ADDR \"1\" \"phase:1,log,chain\"\nSecRule &ARGS \"@eq 0\" \"status:500,deny\"")
>>
Known == <<[s |-> Asc("^x"), ok |-> TRUE, tree |-> [k |-> "cat", l |-> <<[k |-> "bol"], [k |-> "lit", c |-> 120]>>]],
           [s |-> Asc("^1"), ok |-> TRUE, tree |-> [k |-> "cat", l |-> <<[k |-> "bol"], [k |-> "lit", c |-> 49]>>]]>>
H(n, v) == [n |-> Asc(n), vs |-> <<Asc(v)>>]
Req(m, q) == [pre |-> <<>>, path |-> Asc("/q"), hasq |-> q # "", query |-> Asc(q), hasf |-> FALSE, frag |-> <<>>, method |-> Asc(m), proto |-> Asc("HTTP/1.1")]
FormCT == <<H("Content-Type", "application/x-www-form-urlencoded")>>
C(o) == [o |-> o, p |-> <<>>, x |-> [ip |-> <<>>]]
X(o, x) == [o |-> o, p |-> <<>>, x |-> x]
Tx(ip, ops) == [ip |-> ip, port |-> "80", mp |-> [pre |-> <<>>, parts |-> <<>>, bd |-> <<110>>, epi |-> <<>>], ops |-> ops]
Head2(m, q, h) == Tx("::1", <<C("new"), X("url", Req(m, q)), X("reqh", [h |-> h]), C("res")>>)
Body(b) == Tx("::1", <<X("url", Req("POST", "")), X("reqh", [h |-> FormCT]), [o |-> "append", p |-> b, x |-> [ip |-> <<>>]], C("reqb"), C("res")>>)
Conn(ip) == Tx(ip, <<X("conn", [ip |-> Asc(ip)]), C("res")>>)
Pool == <<
  Head2("GET", "a=X&b=1", <<H("Host", "h")>>),
  Head2("POST", "b=x", <<H("Host", "H"), H("X-A", "x")>>),
  Head2("GET", "", <<>>),
  Head2("GET", "a=%20x&a=y", <<H("Host", "H")>>),
  Body(Asc("a=x&b=y")), Body(Asc("a=y")), Body(Asc("b=x&a=0123456")), Body(<<>>),
  Conn("10.0.0.1"), Conn("2.2.2.2"), Conn("1.2.3.4")
>>
Lims == <<8, 1000, 1000>>
Hs == {1, 2, 3, 4}  Bs == {5, 6, 7, 8}  Cs == {9, 10, 11}
Scenarios == IF Kind = "head" THEN [t : {1, 2, 3, 4}, txs : [1..N -> Hs]] ELSE IF Kind = "body" THEN [t : {5, 6}, txs : [1..N -> Bs]] ELSE [t : {7, 8}, txs : [1..N -> Cs]]

TxOf(i) == Pool[scn.txs[i]]
Ops(i) == TxOf(i).ops
Over(i) == nc[i] = Len(Ops(i)) /\ (IF who = i THEN pc ELSE bank[i][23]) = "idle"

Init ==
  /\ scn \in {s \in Scenarios : (s.t + 3 * s.txs[1] + 5 * s.txs[2]) % Choices = 0 /\ \A i \in 1..(N - 1) : s.txs[i] <= s.txs[i + 1]}
  /\ stage = 1 /\ nc = [i \in 1..N |-> 0] /\ hist = <<>> /\ solo = <<>>
  /\ rxs = Known
  /\ \E e \in {EngineOf(<<Texts[scn.t]>>)} : SInit(Known, e, [i \in 1..N |-> Pool[scn.txs[i]]], Lims)

Started(o) == o.o = "new"
Slot == /\ ~going
        /\ \E i \in IF stage <= N THEN {stage} ELSE 1..N : ~Over(i) /\ Pick(i)
        /\ UNCHANGED <<scn, stage, nc, hist, solo>>
Run == /\ going
       /\ IF pc = "idle"
          THEN /\ nc[who] < Len(Ops(who)) /\ nc' = [nc EXCEPT ![who] = @ + 1]
               /\ \E o \in {Ops(who)[nc[who] + 1]} :
                  IF o.o = "new" THEN ev' = [e |-> "new"] /\ going' = FALSE /\ Quiet /\ UNCHANGED <<vvars, lvars, bank, who>> ELSE GoOn(o)
          ELSE GoOn([o |-> ""]) /\ UNCHANGED nc
       /\ hist' = IF going' THEN hist ELSE Append(hist, [t |-> who, e |-> Stop])
       /\ UNCHANGED <<scn, stage, solo>>
(* the transaction of this stage has run alone: keep what it did; behind the last one all start anew *)
NextStage ==
  /\ ~going /\ stage <= N /\ Over(stage)
  /\ stage' = stage + 1
  /\ solo' = Append(solo, hist) /\ hist' = <<>>
  /\ nc' = IF stage = N THEN [i \in 1..N |-> 0] ELSE nc
  /\ IF stage = N
     THEN /\ bank' = [i \in 1..N |-> Fresh(engs[1], TxOf(i), Lims)] /\ who' = 1 /\ Become(Fresh(engs[1], TxOf(1), Lims))
          /\ UNCHANGED <<going, lvars>>
     ELSE UNCHANGED schedvars
  /\ UNCHANGED scn
Next == NextStage \/ (~(stage <= N /\ Over(stage)) /\ Slot) \/ Run

(* C23 *)
Mine(i) == SelectSeq(hist, LAMBDA h : h.t = i)
Same == stage > N => \A i \in 1..N : LET m == Mine(i) IN Len(m) <= Len(solo[i]) /\ m = SubSeq(solo[i], 1, Len(m))
Done == stage > N /\ ~going /\ \A i \in 1..N : Over(i)
AllShown == Done => \A i \in 1..N : Mine(i) = solo[i]
RulesStay == [][engs' = engs]_mcv
OthersStay == [][~going \/ \A i \in 1..N : i # who => bank'[i] = bank[i]]_mcv
Emit == Done => PrintT("GEN " \o ToJson([rxs |-> Known, texts |-> <<Texts[scn.t]>>, memlim |-> Lims[1], reqlim |-> Lims[2], reslim |-> Lims[3],
                   txs |-> [i \in 1..N |-> TxOf(i)], how |-> "gated", sched |-> [k \in DOMAIN hist |-> hist[k].t], pred |-> hist]))
Shown == <<schedvars, scn, stage, nc, solo, [i \in 1..N |-> Mine(i)]>>
=============================================================================
