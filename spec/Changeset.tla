----------------------------- MODULE Changeset -----------------------------
(***************************************************************************)
(* P14-P16: changeset dumps, and the two readers of them.                   *)
(*                                                                          *)
(* A dump is a sequence of elements [n, a: attributes, c: children,         *)
(* s: self-closing], of which those named "changeset" count. Values are     *)
(* numbers, Bad is a text that is not a value of the attribute. The readers *)
(* see parser events, of which the last ones may be missing (the dump was   *)
(* cut), the last possibly cut in the middle.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

None == -1
Bad == -2
CONSTANTS Docs, Readers, Cut     \* Cut: look at all cuts of the dumps
VARIABLES doc, ev, rd, avail, mid,   \* events available; whether a part of the next one is
          i, inside, cur, tags, out, mode
vars == <<doc, ev, rd, avail, mid, i, inside, cur, tags, out, mode>>

El(n, a, c) == [n |-> n, a |-> a, c |-> c, s |-> FALSE]
Self(n, a) == [n |-> n, a |-> a, c |-> <<>>, s |-> TRUE]
RECURSIVE AttrAt(_, _, _)
AttrAt(a, k, j) == IF j > Len(a) THEN None ELSE IF a[j][1] = k THEN a[j][2] ELSE AttrAt(a, k, j + 1)
Attr(a, k) == AttrAt(a, k, 1)
RECURSIVE Collect(_, _)
Collect(F(_), s) == IF s = <<>> THEN <<>> ELSE F(Head(s)) \o Collect(F, Tail(s))

------------------------------------------------------------------------------
\* What a dump means
Required == {"id", "created_at", "open", "num_changes", "comments_count"}
AttrsOk(a) == /\ \A k \in Required : Attr(a, k) \notin {None, Bad}
              /\ Attr(a, "uid") # Bad
TagOk(e) == Attr(e.a, "k") # None /\ Attr(e.a, "v") # None
TagsOf(c) == Collect(LAMBDA e : IF e.n = "tag" THEN <<<<Attr(e.a, "k"), Attr(e.a, "v")>>>> ELSE <<>>, c)
TagsOk(c) == \A j \in 1..Len(c) : c[j].n = "tag" => TagOk(c[j])
Changeset(a, ts) == [ok |-> TRUE, id |-> Attr(a, "id"), created |-> Attr(a, "created_at"), closed |-> Attr(a, "closed_at"),
                     open |-> Attr(a, "open"), uid |-> Attr(a, "uid"), user |-> Attr(a, "user"),
                     num |-> Attr(a, "num_changes"), com |-> Attr(a, "comments_count"), tags |-> ts]
Error == [ok |-> FALSE]
FullOf(e) == IF e.n # "changeset" THEN <<>>
             ELSE IF AttrsOk(e.a) /\ TagsOk(e.c) THEN <<Changeset(e.a, TagsOf(e.c))>> ELSE <<Error>>
TagsOnlyOf(e) == IF e.n = "changeset" /\ ~e.s /\ Attr(e.a, "id") \notin {None, Bad} /\ TagsOk(e.c)
                 THEN <<[ok |-> TRUE, id |-> Attr(e.a, "id"), tags |-> TagsOf(e.c)]>> ELSE <<>>
Full(d) == Collect(FullOf, d)
TagsOnly(d) == Collect(TagsOnlyOf, d)

------------------------------------------------------------------------------
\* Parser events; [e: the element they are of]
RECURSIVE Events(_)
Events(seq) ==
    IF seq = <<>> THEN <<>>
    ELSE LET e == Head(seq) IN
         (IF e.n = "#" THEN <<[k |-> "T", n |-> "#", a |-> <<>>]>>
          ELSE IF e.s THEN <<[k |-> "M", n |-> e.n, a |-> e.a]>>
          ELSE <<[k |-> "S", n |-> e.n, a |-> e.a]>> \o Events(e.c) \o <<[k |-> "E", n |-> e.n, a |-> <<>>]>>)
         \o Events(Tail(seq))
\* the top level elements complete within the first n events
RECURSIVE Whole(_, _)
Whole(d, n) == IF d = <<>> \/ Len(Events(<<Head(d)>>)) > n THEN <<>>
               ELSE <<Head(d)>> \o Whole(Tail(d), n - Len(Events(<<Head(d)>>)))

InitAt(d, r, n, m) == /\ doc = d /\ ev = Events(d) /\ rd = r /\ avail = n /\ mid = m
                      /\ i = 0 /\ inside = FALSE /\ cur = <<>> /\ tags = <<>> /\ out = <<>> /\ mode = "reading"
Init == \E d \in Docs, r \in Readers :
          IF Cut THEN \E n \in 0..Len(Events(d)), m \in BOOLEAN : (m => n < Len(Events(d))) /\ InitAt(d, r, n, m)
          ELSE InitAt(d, r, Len(Events(d)), FALSE)

Read == mode = "reading" /\ i < avail /\ i' = i + 1 /\ UNCHANGED <<doc, ev, rd, avail, mid, mode>>
X == ev[i + 1]
Give(r) == out' = Append(out, r)
Skip == Read /\ UNCHANGED <<inside, cur, tags, out>>

\* ---- ChangesetReader: what is known of the changeset it is in: cur (attributes), tags
FullOut == rd = "full" /\ ~inside
FullIn == rd = "full" /\ inside
AnyBad(a) == \E j \in 1..Len(a) : a[j][1] \in Required \cup {"uid"} /\ a[j][2] = Bad
FullStart == /\ FullOut /\ Read /\ X.n = "changeset" /\ X.k = "S"
             /\ IF AnyBad(X.a) THEN Give(Error) /\ UNCHANGED <<inside, cur, tags>>
                ELSE inside' = TRUE /\ cur' = X.a /\ tags' = <<>> /\ UNCHANGED out
FullSelf == /\ FullOut /\ Read /\ X.n = "changeset" /\ X.k = "M"
            /\ Give(IF AttrsOk(X.a) THEN Changeset(X.a, <<>>) ELSE Error)
            /\ UNCHANGED <<inside, cur, tags>>
FullSkip == FullOut /\ Skip /\ ~(X.n = "changeset" /\ X.k \in {"S", "M"})
FullTag == /\ FullIn /\ Read /\ X.n = "tag" /\ X.k \in {"S", "M"}
           /\ IF TagOk(X) THEN tags' = Append(tags, <<Attr(X.a, "k"), Attr(X.a, "v")>>) /\ UNCHANGED <<inside, cur, out>>
              ELSE Give(Error) /\ inside' = FALSE /\ cur' = <<>> /\ tags' = <<>>
FullEnd == /\ FullIn /\ Read /\ X.n = "changeset" /\ X.k = "E"
           /\ Give(IF AttrsOk(cur) THEN Changeset(cur, tags) ELSE Error)
           /\ inside' = FALSE /\ cur' = <<>> /\ tags' = <<>>
FullInSkip == FullIn /\ Skip /\ ~(X.n = "tag" /\ X.k \in {"S", "M"}) /\ ~(X.n = "changeset" /\ X.k = "E")

\* ---- ChangesetTagReader: cur is <<id>> or <<>>
TagStart == /\ rd = "tags" /\ Read /\ X.n = "changeset" /\ X.k = "S"
            /\ tags' = <<>> /\ inside' = TRUE
            /\ LET id == Attr(X.a, "id") IN
               IF id = Bad THEN Give(Error) /\ cur' = <<>>
               ELSE cur' = (IF id = None THEN <<>> ELSE <<id>>) /\ UNCHANGED out
TagTag == /\ rd = "tags" /\ Read /\ X.n = "tag" /\ X.k \in {"S", "M"}
          /\ IF TagOk(X) THEN tags' = Append(tags, <<Attr(X.a, "k"), Attr(X.a, "v")>>) /\ UNCHANGED <<inside, cur, out>>
             ELSE Give(Error) /\ cur' = <<>> /\ UNCHANGED <<inside, tags>>
TagEnd == /\ rd = "tags" /\ Read /\ X.n = "changeset" /\ X.k = "E"
          /\ IF cur = <<>> THEN Give(Error) ELSE Give([ok |-> TRUE, id |-> cur[1], tags |-> tags])
          /\ inside' = FALSE /\ tags' = <<>> /\ UNCHANGED cur
TagSkip == rd = "tags" /\ Skip /\ ~(X.n = "tag" /\ X.k \in {"S", "M"}) /\ ~(X.n = "changeset" /\ X.k \in {"S", "E"})

\* ---- the end of what there is: in the middle of an event, then for good
AtCut == /\ mode = "reading" /\ i = avail /\ mid
         /\ Give(Error) /\ inside' = FALSE /\ cur' = <<>> /\ tags' = <<>> /\ mid' = FALSE
         /\ UNCHANGED <<doc, ev, rd, avail, i, mode>>
AtEof == /\ mode = "reading" /\ i = avail /\ ~mid
         /\ IF FullIn THEN Give(Error) /\ inside' = FALSE /\ cur' = <<>> /\ tags' = <<>> /\ UNCHANGED mode
            ELSE mode' = "ended" /\ UNCHANGED <<out, inside, cur, tags>>
         /\ UNCHANGED <<doc, ev, rd, avail, mid, i>>
Next == FullStart \/ FullSelf \/ FullSkip \/ FullTag \/ FullEnd \/ FullInSkip
        \/ TagStart \/ TagTag \/ TagEnd \/ TagSkip \/ AtCut \/ AtEof
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
Oks(s) == SelectSeq(s, LAMBDA r : r.ok)
WholeDump == avail = Len(ev)
\* P14: one result per changeset, its own
Complete == (mode = "ended" /\ rd = "full" /\ WholeDump) => out = Full(doc)
\* P15: after what was complete before the cut come errors only
Expected == IF rd = "full" THEN Full(Whole(doc, avail)) ELSE TagsOnly(Whole(doc, avail))
TruePrefix == mode = "ended" => LET n == Len(Expected) IN
                IF rd = "full" THEN IsPrefix(Expected, out) /\ \A j \in (n + 1)..Len(out) : ~out[j].ok
                ELSE Oks(out) = Expected
Ends == <>(mode = "ended")
\* P16
TagsAlone == (mode = "ended" /\ rd = "tags") => Oks(out) = Expected
Agree == LET both == Collect(LAMBDA e : IF e.n = "changeset" /\ ~e.s /\ FullOf(e)[1].ok
                                        THEN <<[ok |-> TRUE, id |-> FullOf(e)[1].id, tags |-> FullOf(e)[1].tags]>> ELSE <<>>, doc)
         IN \A j \in 1..Len(both) : \E k \in 1..Len(TagsOnly(doc)) : TagsOnly(doc)[k] = both[j]
NothingOutside == (rd = "full" /\ ~inside) => tags = <<>>
Emit == mode = "ended" => PrintT(ToJson([d |-> doc, r |-> rd, x |-> Expected, n |-> Len(Whole(doc, avail)), a |-> avail]))
=============================================================================
