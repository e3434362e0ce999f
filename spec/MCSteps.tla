------------------------------ MODULE MCSteps ------------------------------
(* The step a phase names (Steps) against the engine's phases (E2E) : for every phase word and every history of calls. Shift
   is what has to be added to the number of the rule language to get the engine's: 1 in the design the engine's phases suggest,
   0 in the code as it is (the known finding of C25), where RightStep does not hold. *)
EXTENDS E2E, Steps
CONSTANTS Shift, MaxCalls
VARIABLES nc, ran, sees
mcv == <<e2evars, step, nc, ran, sees>>
Words == {"", ",phase:1", ",phase:2", ",phase:'3'", ",phase:4", ",phase:5", ",phase:request", ",phase:response", ",phase:logging", ",phase:1,phase:4"}
Texts == {Asc("SecRule &ARGS \"@ge 0\" \"id:1,log" \o w \o "\"\n") : w \in Words}
X(o, x) == [o |-> o, p |-> <<>>, x |-> x]
Calls == {X("conn", [ip |-> Asc("::1")]), X("url", [pre |-> <<>>, path |-> Asc("/"), hasq |-> FALSE, query |-> <<>>, hasf |-> FALSE, frag |-> <<>>, method |-> Asc("GET"), proto |-> Asc("HTTP/1.1")]),
          X("reqh", [h |-> <<>>]), X("reqb", 0), X("resh", [code |-> 200, proto |-> <<>>, h |-> <<>>]), X("resb", 0), X("log", 0)}
Init == /\ nc = 0 /\ ran = <<>> /\ sees = "" /\ step = 0
        /\ rxs = <<>>
        /\ \E t \in Texts : \E ds \in {Meaning(t).ds} : \E e \in {Apply2(NewEngine, ds)} :
           /\ engs = <<e>> /\ dsets = <<ds>>
           /\ TxInit([rules |-> <<[Numbered(e.rules[1]) EXCEPT !.ph = @ + Shift]>>, defs |-> <<>>, ip |-> "::1", port |-> "80"], 0)
        /\ VInit([reqacc |-> FALSE, resacc |-> FALSE, mp |-> [pre |-> <<>>, parts |-> <<>>, bd |-> <<110>>, epi |-> <<>>]], 1, 1, 1)
Named == engs[1].rules[1]
Next == \/ /\ Idle /\ nc < MaxCalls /\ nc' = nc + 1
           /\ \E o \in Calls : Do(o) /\ Call(o.o) /\ sees' = IF RunsIn(Named, o.o) THEN o.o ELSE ""
           /\ UNCHANGED ran
        \/ /\ pc # "idle" /\ Work /\ UNCHANGED <<nc, step, sees>>
           /\ ran' = IF pc = "eval" THEN Append(ran, <<call, nc>>) ELSE ran
(* the rule is evaluated in exactly the call in which Steps has it run *)
RightStep == /\ pc = "eval" => call = sees
             /\ pc = "end" /\ sees # "" => ran # <<>> /\ ran[Len(ran)] = <<sees, nc>>
Once == Len(ran) <= 1
=============================================================================
