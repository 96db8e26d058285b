---------------------------- MODULE SourceTrace ----------------------------
(* Validates what the real readers did to a source: [recs: their sizes in bytes, tail, e: events], an event being  *)
(* [c: "r", n] (n bytes were given, -1: interrupted, 0: nothing, at the end), "d" (a delivery), "end".             *)
EXTENDS Source, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
T == Traces[tr]
TInit == /\ \E t \in 1..Len(Traces) : tr = t
         /\ doc = [mode |-> "buffered", recs |-> [k \in 1..Len(T.recs) |-> <<T.recs[k]>>], tail |-> T.tail]
         /\ div = <<T.total>> /\ str = 1 /\ left = T.total /\ given = 0 /\ rec = 1 /\ field = 1 /\ have = 0 /\ ready = 0 /\ delivered = 0
         /\ intr = 0 /\ state = "run" /\ plan = <<>> /\ i = 0
Nothing == left = 0 /\ UNCHANGED vars
Act(e) == CASE e.c = "r" -> (IF e.n > 0 THEN state = "run" /\ e.n <= left /\ Take(e.n) /\ UNCHANGED plan
                             ELSE IF e.n = 0 THEN Nothing ELSE UNCHANGED vars)
            [] e.c = "d" -> Deliver
            \* a document may be known to be over at its end tag
            [] e.c = "end" -> ready = Len(doc.recs) /\ delivered = ready /\ UNCHANGED vars
TNext == i < Len(T.e) /\ Act(T.e[i + 1]) /\ i' = i + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<vars, tr, i>>
Accepted == (i = Len(T.e)) => PrintT(ToJson([acc |-> tr]))
=============================================================================
