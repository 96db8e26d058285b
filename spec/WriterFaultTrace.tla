-------------------------- MODULE WriterFaultTrace --------------------------
(* Validates recorded histories of calls on the real writers, over a failing sink, against            *)
(* WriterFault. Each event is a call: what it returned, how many bytes the sink took during it, and   *)
(* whether it failed. lens come from the same calls over a sink that does not fail.                   *)
EXTENDS WriterFault, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
T == Traces[tr]
Ev == T.ev[l]
Set(s) == {s[j] : j \in 1..Len(s)}
TInit == \E t \in 1..Len(Traces) : tr = t /\ l = 1 /\ InitAt(Traces[t].lens, Set(Traces[t].refused), Traces[t].cap, Traces[t].perm)
Same == UNCHANGED <<tr, l>>
TStart == /\ l <= Len(T.ev)
          /\ Call(IF fails = 0 THEN lens[ci + 1] ELSE Ev.took + IF Ev.failed THEN 1 ELSE 0) /\ Same
\* everything that was taken during the call
TTake == /\ inCall /\ l <= Len(T.ev) /\ Ev.took > 0 /\ got = T.before[l]
         /\ Deliver(Ev.took) /\ Same
TFail == inCall /\ Ev.failed /\ got = T.before[l] + Ev.took /\ Fail /\ Same
TReturn == /\ inCall /\ failedNow = Ev.failed /\ got = T.before[l] + Ev.took
           /\ Return(Ev.r) /\ l' = l + 1 /\ UNCHANGED tr
TNext == TStart \/ TTake \/ TFail \/ TReturn
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>
Accepted == (Done /\ l = Len(T.ev) + 1) => PrintT(ToJson([acc |-> tr]))
View == <<tr, l, got, inCall, failedNow>>
=============================================================================
