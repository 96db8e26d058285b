--------------------------- MODULE XmlTextTrace ---------------------------
(* The parser of XmlText reads what the real writer wrote: recorded attribute values (code points),   *)
(* each with the text it was to hold.                                                                 *)
EXTENDS XmlText, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tr
TInit == \E t \in 1..Len(Traces) :
           /\ tr = t /\ texts = Traces[t].t /\ wi = Len(texts) + 1 /\ wj = 0 /\ ch = Traces[t].w
           /\ p = 1 /\ st = "tag" /\ q = QUOT /\ val = <<>> /\ ref = <<>> /\ attrs = <<>>
TNext == ParserNext /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<vars, tr>>
Accepted == (Done /\ st = "content" /\ attrs = texts) => PrintT(ToJson([acc |-> tr]))
View == <<tr, p, st>>
=============================================================================
