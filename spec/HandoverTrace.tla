------------------------- MODULE HandoverTrace -------------------------
(* Validates recorded histories of calls on real readers, and of taking their source back, against Handover. Each      *)
(* call has how many objects the source is past afterwards.                                                            *)
EXTENDS Handover, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tr
l == Len(hist) + 1
Log == Traces[tr].h
TInit == /\ tr \in 1..Len(Traces) /\ src = Traces[tr].s
         /\ pos = 0 /\ bi = 0 /\ buf = <<>> /\ cur = <<>> /\ hist = <<>>
TStart == l <= Len(Log) /\ Log[l].c[1] # "over" /\ Start(Log[l].c) /\ UNCHANGED tr
TStep == (TakeBlock \/ Pop \/ NoMore) /\ UNCHANGED tr
TFinish == FinishAt /\ cur.got = Log[l].got /\ cur.end = Log[l].end /\ Base(bi + 1) = Log[l].at /\ UNCHANGED tr
TOver == l <= Len(Log) /\ Log[l].c[1] = "over" /\ Over /\ Base(bi + 1) = Log[l].at /\ UNCHANGED tr
TNext == TStart \/ TStep \/ TFinish \/ TOver
TSpec == TInit /\ [][TNext]_<<vars, tr>>
Accepted == (cur = <<>> /\ Len(hist) = Len(Log)) => PrintT(ToJson([acc |-> tr]))
View == <<tr, bi, buf, cur, Len(hist)>>
=============================================================================
