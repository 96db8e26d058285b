---------------------------- MODULE ToolCount ----------------------------
(***************************************************************************)
(* P26: osmio-pbf-read-speed, a process around a reader: it takes objects   *)
(* one by one, counts them, and at the end reports how many there were. The *)
(* reader may get ahead of the tool by nothing. Where the reader refuses,   *)
(* the tool fails. Without a file it does so at once.                       *)
(***************************************************************************)
EXTENDS PbfDamage
VARIABLES file, count, report, exit
cvars == <<file, count, report, exit>>

Missing == "missing"
CInit == /\ Init /\ file \in {"there", Missing} /\ count = 0 /\ report = -1 /\ exit = "running"
         \* a file that is not there has no damage, nor blobs
         /\ file = Missing => (blobs = <<>> /\ dmg = NoDamage)
Running == exit = "running"
Open == Running /\ file = Missing /\ exit' = "failed" /\ UNCHANGED <<file, count, report>> /\ UNCHANGED vars
Take == /\ Running /\ file = "there" /\ count < Len(out)
        /\ count' = count + 1 /\ UNCHANGED <<file, report, exit>> /\ UNCHANGED vars
Ask == /\ Running /\ file = "there" /\ count = Len(out) /\ mode = "reading" /\ Next /\ UNCHANGED cvars
Report == /\ Running /\ file = "there" /\ count = Len(out) /\ mode = "ended"
          /\ report' = count /\ exit' = "ok" /\ UNCHANGED <<file, count>> /\ UNCHANGED vars
Fail == /\ Running /\ file = "there" /\ count = Len(out) /\ mode = "refused"
        /\ exit' = "failed" /\ UNCHANGED <<file, count, report>> /\ UNCHANGED vars
CNext == Open \/ Take \/ Ask \/ Report \/ Fail
CSpec == CInit /\ [][CNext]_<<vars, cvars>> /\ WF_<<vars, cvars>>(CNext)

------------------------------------------------------------------------------
Total(f) == Before(f, Len(f) + 1)
\* The number reported is that of all objects of the blobs there are, which is a whole file
Accounts == exit = "ok" => /\ file = "there"
                           /\ report = (IF dmg.b = 0 THEN Total(blobs) ELSE Before(blobs, dmg.b))
                           /\ dmg.b = 0 \/ (dmg.how = "cut" /\ dmg.s = "len")
NoReport == exit # "ok" => report = -1
Sound == (exit = "failed" /\ file = "there") => dmg # NoDamage \/ FirstBad <= Len(blobs)
Decides == <>(exit # "running")
CEmit == exit # "running" => PrintT(ToJson([f |-> blobs, d |-> dmg, file |-> file, report |-> report, exit |-> exit]))
=============================================================================
