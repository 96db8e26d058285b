------------------------------ MODULE Source ------------------------------
(***************************************************************************)
(* P21: what a source does to a reader. The input is a sequence of records  *)
(* (a blob: length, header, body; or an element of a document), then a tail *)
(* (the end tag), measured in cells. The source gives as much of what it is *)
(* asked for as it likes, may be interrupted before, and ends only with the *)
(* input. A compressed input is divided into streams, some of them empty;   *)
(* nothing is read across the end of a stream in one go, but the next one   *)
(* goes on where it left off.                                               *)
(*                                                                          *)
(* "exact": the reader asks for a field until it has it. "buffered": it     *)
(* asks for a buffer full and looks for records in whatever it gets.        *)
(* However it is done, a record is delivered only when it has arrived, in   *)
(* order, and at the end all have been delivered.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Docs,        \* [mode, recs: sequence of sequences of field sizes, tail]
          MaxStreams, MaxIntr, Cap
VARIABLES doc, div, str, left,    \* the input; the current stream and what is left of it
          given,                  \* cells taken from the source
          rec, field, have,       \* exact: where the reader is; buffered: have = what it holds of record rec
          ready, delivered,       \* records complete, and delivered
          intr, state, plan
vars == <<doc, div, str, left, given, rec, field, have, ready, delivered, intr, state, plan>>

SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
Size(r) == SumSeq(r)
Total(dd) == SumSeq([i \in 1..Len(dd.recs) |-> Size(dd.recs[i])]) + dd.tail
RECURSIVE End(_, _)
End(dd, k) == IF k = 0 THEN 0 ELSE End(dd, k - 1) + Size(dd.recs[k])

\* all divisions into at most n streams
RECURSIVE Divisions(_, _)
Divisions(n, total) == {<<total>>} \cup (IF n <= 1 THEN {} ELSE UNION {{<<k>> \o r : r \in Divisions(n - 1, total - k)} : k \in 0..total})

Init == /\ doc \in Docs
        /\ div \in (IF doc.mode = "exact" THEN {<<Total(doc)>>} ELSE Divisions(MaxStreams, Total(doc)))
        /\ str = 1 /\ left = div[1] /\ given = 0 /\ rec = 1 /\ field = 1 /\ have = 0 /\ ready = 0 /\ delivered = 0
        /\ intr = 0 /\ state = "run" /\ plan = <<>>

InTail == rec > Len(doc.recs)
Want == IF doc.mode = "buffered" THEN Cap ELSE IF InTail THEN 1 ELSE doc.recs[rec][field] - have

\* buffered: how many records are complete, and what is left, when there are h cells from the start of record r on
RECURSIVE Scan(_, _)
Scan(r, h) == IF r <= Len(doc.recs) /\ h >= Size(doc.recs[r]) THEN Scan(r + 1, h - Size(doc.recs[r])) ELSE <<r, h>>

Take(n) == /\ given' = given + n /\ left' = left - n
           /\ IF doc.mode = "buffered"
              THEN LET s == Scan(rec, have + n) IN rec' = s[1] /\ have' = s[2] /\ ready' = s[1] - 1 /\ UNCHANGED field
              ELSE IF InTail THEN UNCHANGED <<rec, field, have, ready>>
              ELSE IF have + n < doc.recs[rec][field] THEN have' = have + n /\ UNCHANGED <<rec, field, ready>>
              ELSE /\ have' = 0
                   /\ IF field < Len(doc.recs[rec]) THEN field' = field + 1 /\ UNCHANGED <<rec, ready>>
                      ELSE field' = 1 /\ rec' = rec + 1 /\ ready' = rec
           /\ UNCHANGED <<doc, div, str, delivered, intr, state>>
Read(n) == state = "run" /\ left > 0 /\ n >= 1 /\ n <= Want /\ n <= left /\ Take(n) /\ plan' = Append(plan, n)
Interrupt == state = "run" /\ intr < MaxIntr /\ intr' = intr + 1 /\ plan' = Append(plan, 0)
             /\ UNCHANGED <<doc, div, str, left, given, rec, field, have, ready, delivered, state>>
NextStream == state = "run" /\ left = 0 /\ str < Len(div) /\ str' = str + 1 /\ left' = div[str + 1]
              /\ UNCHANGED <<doc, div, given, rec, field, have, ready, delivered, intr, state, plan>>
Deliver == delivered < ready /\ delivered' = delivered + 1
           /\ UNCHANGED <<doc, div, str, left, given, rec, field, have, ready, intr, state, plan>>
Finish == state = "run" /\ left = 0 /\ str = Len(div) /\ delivered = ready /\ state' = "end"
          /\ UNCHANGED <<doc, div, str, left, given, rec, field, have, ready, delivered, intr, plan>>
Next == (\E n \in 1..Cap : Read(n)) \/ Interrupt \/ NextStream \/ Deliver \/ Finish
Spec == Init /\ [][Next]_vars
\* one reader: what is ready is delivered before more is asked for (the order does not matter to the source)
Eager == (delivered < ready => Deliver) /\ Next
EagerSpec == Init /\ [][Eager]_vars /\ WF_vars(Eager)

\* what is ready depends on how much was given, and on nothing else
Arrived == Max({k \in 0..Len(doc.recs) : End(doc, k) <= given})
Faithful == ready = Arrived /\ delivered <= ready
AllOfIt == state = "end" => given = Total(doc) /\ delivered = Len(doc.recs)
Ends == <>(state = "end")

Emit == state = "end" => PrintT(ToJson([mode |-> doc.mode, recs |-> doc.recs, tail |-> doc.tail, div |-> div, plan |-> plan]))
=============================================================================
