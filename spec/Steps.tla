------------------------------- MODULE Steps -------------------------------
(* In which processing step a rule runs, by the phase its text names (C25): the five phases of the rule language and the calls
   that are their steps. *)
EXTENDS SecLang
VARIABLES step   \* the last step that was taken, 0 before the first
StepCalls == <<"reqh", "reqb", "resh", "resb", "log">>
StepOf(c) == IF \E i \in DOMAIN StepCalls : StepCalls[i] = c THEN CHOOSE i \in DOMAIN StepCalls : StepCalls[i] = c ELSE 0
SInit == step = 0
(* a call takes its step unless that or a later one was taken before; the rules of the phase run in it *)
Takes(c) == StepOf(c) > step
Call(c) == step' = IF Takes(c) THEN StepOf(c) ELSE step
RunsIn(r, c) == Takes(c) /\ r.ph = StepOf(c)
=============================================================================
