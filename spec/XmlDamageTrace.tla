-------------------------- MODULE XmlDamageTrace --------------------------
(* Validates recorded reads of damaged XML and change documents: obs are the objects delivered, end how it ended. *)
EXTENDS XmlDamage, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tr
TInit == \E t \in 1..Len(Traces) : tr = t /\ DInitAt(Traces[t].d, Traces[t].at, Traces[t].h)
\* every object as soon as it is delivered, and the end as it comes
Matches == /\ \A j \in (Len(out) + 1)..Len(out') : j <= Len(Traces[tr].obs) /\ Traces[tr].obs[j] = out'[j]
           /\ mode' # "reading" => mode' = Traces[tr].end /\ Len(out') = Len(Traces[tr].obs)
TNext == DNext /\ UNCHANGED tr /\ Matches
TSpec == TInit /\ [][TNext]_<<vars, dvars, tr>>
Accepted == mode # "reading" => PrintT(ToJson([acc |-> tr]))
View == <<tr, i, mode>>
=============================================================================
