------------------------- MODULE PbfDamageTrace -------------------------
(* Validates recorded reads of damaged files: obs are the numbers of the objects delivered (0: not one of the file's). *)
EXTENDS PbfDamage, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tr
TInit == tr \in 1..Len(Traces) /\ InitAt(Traces[tr].f, Traces[tr].d)
TNext == /\ Next /\ UNCHANGED tr
         /\ Len(out') > Len(out) => Len(out') <= Len(Traces[tr].obs) /\ out'[Len(out')] = Traces[tr].obs[Len(out')]
         /\ mode' # "reading" => mode' = Traces[tr].end /\ Len(out) = Len(Traces[tr].obs)
TSpec == TInit /\ [][TNext]_<<vars, tr>>
Accepted == mode # "reading" => PrintT(ToJson([acc |-> tr]))
TView == <<tr, bi, seg, Len(buf), Len(out), mode>>
=============================================================================
