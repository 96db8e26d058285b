----------------------------- MODULE ToolShow -----------------------------
(***************************************************************************)
(* P26: osmio-osc-debug, a process around a reader of change documents: it  *)
(* shows each object before it asks for the next.                           *)
(***************************************************************************)
EXTENDS XmlDamage
VARIABLES shown, exit
svars == <<shown, exit>>

SInit == DInit /\ shown = <<>> /\ exit = "running"
Running == exit = "running"
Ask == Running /\ Len(shown) = Len(out) /\ mode = "reading" /\ DNext /\ UNCHANGED svars
Show == /\ Running /\ Len(shown) < Len(out)
        /\ shown' = Append(shown, out[Len(shown) + 1]) /\ UNCHANGED exit /\ UNCHANGED <<vars, dvars>>
Stop == /\ Running /\ Len(shown) = Len(out) /\ mode # "reading"
        /\ exit' = (IF mode = "ended" THEN "ok" ELSE "failed") /\ UNCHANGED shown /\ UNCHANGED <<vars, dvars>>
SNext == Ask \/ Show \/ Stop
SSpec == SInit /\ [][SNext]_<<vars, dvars, svars>> /\ WF_<<vars, dvars, svars>>(SNext)

------------------------------------------------------------------------------
ShowsAll == /\ IsPrefix(shown, Meaning(doc, FALSE))
            /\ exit = "ok" => shown = Meaning(doc, FALSE) /\ at = AtEnd
            /\ exit = "failed" => shown = Demanded /\ (at < AtEnd \/ how # "cut")
Decides == <>(exit # "running")
SEmit == exit # "running" => PrintT(ToJson([d |-> doc, at |-> at, h |-> how, x |-> shown, exit |-> exit]))
=============================================================================
