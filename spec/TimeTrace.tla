----------------------------- MODULE TimeTrace -----------------------------
(* Validates what the real time stamps did: conversions [c: "conv", text, day, sec] (the text denotes the  *)
(* instant), and comparisons [c: "cmp", a, b, o], each side a text or an instant.                          *)
EXTENDS Time, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
T == Traces[tr]
Of(p) == IF Len(p) = 2 THEN p ELSE Instant(p)
Holds(e) == IF e.c = "conv" THEN Instant(e.text) = <<e.day, e.sec>> ELSE Order(Of(e.a), Of(e.b)) = e.o
TInit == /\ \E t \in 1..Len(Traces) : tr = t
         /\ i = 0 /\ day = 0 /\ y = 1970 /\ m = 1 /\ d = 1 /\ left = 0
TNext == i < Len(T.e) /\ Holds(T.e[i + 1]) /\ i' = i + 1 /\ UNCHANGED <<vars, tr>>
TSpec == TInit /\ [][TNext]_<<vars, tr, i>>
Accepted == (i = Len(T.e)) => PrintT(ToJson([acc |-> tr]))
=============================================================================
