--------------------------- MODULE XmlRoundTrace ---------------------------
(* Validates recorded round trips: the document the real writer made (as an independent parser sees  *)
(* it) must mean the objects, and what was read from it must be what was written, object by object.   *)
EXTENDS XmlRound, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tr
TInit == \E t \in 1..Len(Traces) : /\ tr = t /\ objs = Traces[t].o /\ change = Traces[t].ch
                                   /\ InitAt(Traces[t].d)
\* whatever elements and attributes the writer chose: they must mean these objects
Written == Meaning(doc, FALSE) = objs
TStart == i = 0 => Written
Matches == \A j \in (Len(out) + 1)..Len(out') : j <= Len(Traces[tr].obs) /\ Traces[tr].obs[j] = out'[j] /\ out'[j] = objs[j]
TNext == TStart /\ RNext /\ UNCHANGED tr /\ Matches
TSpec == TInit /\ [][TNext]_<<rvars, tr>>
Accepted == (mode = "ended" /\ Len(out) = Len(Traces[tr].obs) /\ Len(out) = Len(objs)) => PrintT(ToJson([acc |-> tr]))
View == <<tr, i, mode>>
=============================================================================
