---------------------------- MODULE PbfTrace ----------------------------
(* Validates recorded reads of the real PBF readers: the n-th object they delivered must be the one  *)
(* the reader of Pbf delivers. Each trace has its (abstract) file, which is encoded by Pbf!Enc.      *)
(* level: which part of the objects to compare ("ident" P01, "content" P02, "scale" P03, "all" P05). *)
EXTENDS Pbf, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l

Mul(n) == n % 100 = 0
Abs(n) == IF n < 0 THEN -n ELSE n
Near(o, n, u) == IF n % u = 0 THEN o * u = n ELSE Abs(o * u - n) < u

Ident(o, x) == o.t = x.t /\ o.id = x.id
Content(o, x) == /\ Ident(o, x) /\ o.tags = x.tags /\ o.refs = x.refs /\ o.mem = x.mem
                 /\ o.ver = x.ver /\ o.cs = x.cs /\ o.uid = x.uid /\ o.user = x.user /\ o.del = x.del
Scale(o, x) == /\ Ident(o, x)
               /\ x.t = "n" => Near(o.lat, x.lat, 100) /\ Near(o.lon, x.lon, 100)
               /\ o.hasts = x.hasts /\ (x.hasts => Near(o.ts, x.ts, 1000))
Match(level, o, x) ==
    CASE level = "ident" -> Ident(o, x)
      [] level = "content" -> Content(o, x)
      [] level = "scale" -> Scale(o, x)
      [] OTHER -> Content(o, x) /\ Scale(o, x)

TInit == /\ tr \in 1..Len(Traces) /\ l = 1
         /\ file = Traces[tr].file /\ wire = Enc(file)
         /\ bi = 0 /\ gi = 0 /\ oi = 0 /\ acc = Acc0 /\ buf = <<>> /\ out = <<>> /\ mode = "idle"

\* unseen steps of the reader
Silent == (TakeBlob \/ DecodeObj \/ EndGroup) /\ UNCHANGED <<tr, l>>
\* the caller was given an object
Event == /\ Deliver /\ l <= Len(Traces[tr].obs)
         /\ Match(Traces[tr].level, Traces[tr].obs[l], Head(buf))
         /\ l' = l + 1 /\ UNCHANGED tr
Finish == /\ End /\ l = Len(Traces[tr].obs) + 1 /\ Traces[tr].end = "none" /\ UNCHANGED <<tr, l>>
TNext == Silent \/ Event \/ Finish
TSpec == TInit /\ [][TNext]_<<vars, tr, l>>

Accepted == mode = "ended" => PrintT(ToJson([acc |-> tr]))
\* `out` grows with the trace and says no more than l
View == <<tr, l, bi, gi, oi, mode>>
=============================================================================
