------------------------- MODULE TypedIterTrace -------------------------
(* Validates recorded histories of calls on the real readers against TypedIter. *)
EXTENDS TypedIter, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tr
l == Len(hist) + 1
Log == Traces[tr].h
TInit == /\ tr \in 1..Len(Traces) /\ src = Traces[tr].s
         /\ pos = 0 /\ bi = 0 /\ buf = <<>> /\ cur = <<>> /\ hist = <<>>
\* the next recorded call; what it delivered is compared when it returns
TStart == l <= Len(Log) /\ Start(Log[l].c) /\ UNCHANGED tr
TStep == (TakeBlock \/ Pop \/ NoMore) /\ UNCHANGED tr
TFinish == Finish /\ cur.got = Log[l].got /\ cur.end = Log[l].end /\ UNCHANGED tr
TNext == TStart \/ TStep \/ TFinish
TSpec == TInit /\ [][TNext]_<<vars, tr>>
Accepted == (cur = <<>> /\ Len(hist) = Len(Log)) => PrintT(ToJson([acc |-> tr]))
TSources == {Traces[i].s : i \in 1..Len(Traces)}
View == <<tr, bi, buf, cur, Len(hist)>>
=============================================================================
