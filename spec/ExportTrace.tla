---------------------------- MODULE ExportTrace ----------------------------
(* Validates runs of the real tool: [out: what the tag reader delivers of the dump: [ok, id, tags], target, fault:    *)
(* "none" "space" "kill", exit: "ok" "failed" "killed", rows: the rows of the database afterwards].                    *)
EXTENDS Export, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr
Run == Traces[tr]
TInit == /\ \E t \in 1..Len(Traces) : tr = t
          /\ doc = <<>> /\ ev = <<>> /\ rd = "tags" /\ avail = 0 /\ mid = FALSE /\ i = 0 /\ inside = FALSE /\ cur = <<>> /\ tags = <<>>
          /\ out = Run.out /\ mode = "ended"
          /\ target = Run.target /\ tool = "start" /\ taken = 0 /\ pending = <<>> /\ db = <<>> /\ exit = "running" /\ fault = <<>>
TNext == /\ Look \/ Create \/ Insert \/ Commit \/ (Run.fault = "space" /\ OutOfSpace) \/ (Run.fault = "kill" /\ Kill)
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<vars, tvars, tr>>
Accepted == (exit = Run.exit /\ db = Run.rows) => PrintT(ToJson([acc |-> tr]))
=============================================================================
