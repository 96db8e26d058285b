------------------------------ MODULE Export ------------------------------
(***************************************************************************)
(* P22: the export of a dump to a database: the tag reader of Changeset,    *)
(* and a tool which takes its results one by one into a transaction.        *)
(*                                                                          *)
(* `target` is what is at the place of the database before. The tool may    *)
(* run out of space in any step that writes, and may be killed at any time. *)
(***************************************************************************)
EXTENDS ChangesetDocs

CONSTANTS MaxDump, Targets,     \* "absent", or something that exists
          MaxIds, ExportUnits, MayFill, MayKill
VARIABLES target, tool, taken, pending, db, exit, fault
tvars == <<target, tool, taken, pending, db, exit, fault>>

\* ids may come again
ExportDocs == {TLCEval([j \in 1..Len(us) |-> Unit(us[j][1], us[j][2])]) : us \in SeqsOf({u \in ExportUnits \X (1..MaxIds) : u[1] \in {"good", "open", "talk"} \/ u[2] = 1}, 0, MaxDump)}

Rows(rs) == [j \in 1..Len(rs) |-> <<rs[j].id, rs[j].tags>>]
Ids(rows) == {rows[j][1] : j \in 1..Len(rows)}

EInit == Init /\ target \in Targets /\ tool = "start" /\ taken = 0 /\ pending = <<>> /\ db = <<>> /\ exit = "running" /\ fault = <<>>
Running == exit = "running"
Fail == exit' = "failed" /\ pending' = <<>> /\ UNCHANGED <<target, tool, taken, db, fault>>

Look == /\ Running /\ tool = "start" /\ UNCHANGED vars
        /\ IF target # "absent" THEN Fail ELSE tool' = "create" /\ UNCHANGED <<target, taken, pending, db, exit, fault>>
Create == /\ Running /\ tool = "create" /\ UNCHANGED vars
          /\ tool' = "fill" /\ UNCHANGED <<target, taken, pending, db, exit, fault>>
ReadOn == /\ Running /\ tool = "fill" /\ taken = Len(out) /\ mode = "reading" /\ Next /\ UNCHANGED tvars
Insert == /\ Running /\ tool = "fill" /\ taken < Len(out) /\ UNCHANGED vars
          /\ LET r == out[taken + 1] IN
             IF ~r.ok \/ r.id \in Ids(pending) THEN Fail
             ELSE pending' = Append(pending, <<r.id, r.tags>>) /\ taken' = taken + 1 /\ UNCHANGED <<target, tool, db, exit, fault>>
Commit == /\ Running /\ tool = "fill" /\ taken = Len(out) /\ mode = "ended" /\ UNCHANGED vars
          /\ db' = pending /\ pending' = <<>> /\ exit' = "ok" /\ UNCHANGED <<target, tool, taken, fault>>
OutOfSpace == /\ MayFill /\ Running /\ tool \in {"create", "fill"} /\ UNCHANGED vars
              /\ exit' = "failed" /\ pending' = <<>> /\ fault' = <<"space", taken>> /\ UNCHANGED <<target, tool, taken, db>>
Kill == /\ MayKill /\ Running /\ UNCHANGED vars /\ exit' = "killed" /\ pending' = <<>> /\ fault' = <<"kill", taken>>
        /\ UNCHANGED <<target, tool, taken, db>>
ENext == Look \/ Create \/ ReadOn \/ Insert \/ Commit \/ OutOfSpace \/ Kill
ESpec == EInit /\ [][ENext]_<<vars, tvars>> /\ WF_<<vars, tvars>>(ENext)

------------------------------------------------------------------------------
Sound(d) == \* the dump has nothing wrong for the tag reader, and no id twice
    /\ \A e \in ToSet(d) : (e.n = "changeset" /\ ~e.s) => (Attr(e.a, "id") \notin {None, Bad} /\ TagsOk(e.c))
    /\ Cardinality(Ids(Rows(TagsOnly(d)))) = Len(TagsOnly(d))
AllOrNothing == /\ exit = "ok" => db = Rows(Oks(out)) /\ \A j \in 1..Len(out) : out[j].ok
                /\ exit # "ok" => db = <<>>
Complete22 == (exit = "ok" /\ ~Cut) => db = Rows(TagsOnly(doc))
Succeeds == (exit = "failed" /\ fault = <<>> /\ target = "absent" /\ ~Cut) => ~Sound(doc)
Refuses == (exit \notin {"running", "killed"} /\ target # "absent") => exit = "failed" /\ taken = 0 /\ tool = "start"
Decides == <>(exit # "running")

EmitEnd == exit # "running" => PrintT(ToJson([d |-> doc, t |-> target, f |-> fault, x |-> exit, rows |-> db, a |-> avail, m |-> mid]))
=============================================================================
