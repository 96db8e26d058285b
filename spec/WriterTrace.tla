---------------------------- MODULE WriterTrace ----------------------------
(* Validates recorded histories of calls on the real writers against Writer. A call that returned     *)
(* anything is compared with what the specification says; at the end the tokens an independent parser *)
(* found in what was delivered are.                                                                   *)
EXTENDS Writer, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tr
Log == Traces[tr].h
l == Len(hist) + 1
TInit == /\ \E t \in 1..Len(Traces) : tr = t
         /\ kind = Traces[tr].k /\ st = (IF Traces[tr].h[1].c[1] = "from_iter" THEN "unmade" ELSE "initial")
         /\ hdrs = <<>> /\ out = <<>> /\ objs = <<>> /\ hist = <<>>
TNext == /\ l <= Len(Log) /\ Do(Log[l].c) /\ UNCHANGED tr
         /\ hist'[l].r \in {"any", Log[l].r} /\ hist'[l].open = Log[l].open
         \* refused calls deliver nothing
         /\ (Log[l].r = "err" => Log[l].grown = 0)
TSpec == TInit /\ [][TNext]_<<vars, tr>>
Accepted == (st = "gone" /\ out = Traces[tr].out /\ Range(hdrs) = Range(Traces[tr].hd)) => PrintT(ToJson([acc |-> tr]))
View == <<tr, l, st>>
=============================================================================
