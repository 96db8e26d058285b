---------------------------- MODULE XmlTrace ----------------------------
(* Validates recorded reads of the real XML and OSC readers: the n-th object they delivered must be  *)
(* the n-th the reader of XmlDoc delivers. level: "all" (P12) or what P13 is about.                   *)
EXTENDS XmlDoc, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tr
TInit == \E t \in 1..Len(Traces) : tr = t /\ InitAt(Traces[t].d)
Same(o, x) == IF Traces[tr].level = "all" THEN o = x
              ELSE o.t = x.t /\ o.id = x.id /\ o.del = x.del
\* every object as soon as it is delivered
Matches == \A j \in (Len(out) + 1)..Len(out') :
              j <= Len(Traces[tr].obs) /\ Same(Traces[tr].obs[j], out'[j])
TNext == Next /\ UNCHANGED tr /\ Matches
TSpec == TInit /\ [][TNext]_<<vars, tr>>
Accepted == (mode = "ended" /\ Len(out) = Len(Traces[tr].obs)) => PrintT(ToJson([acc |-> tr]))
View == <<tr, i, mode>>
=============================================================================
