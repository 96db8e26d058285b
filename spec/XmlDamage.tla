----------------------------- MODULE XmlDamage -----------------------------
(***************************************************************************)
(* Reading an XML or change document that is cut, whose source fails, or    *)
(* that is not well-formed (P25).                                           *)
(*                                                                          *)
(* The document is that of XmlDoc, between the start and the end of a root. *)
(* The damage is at one place: 0 is before or in the root's start tag, j is *)
(* in event j (or between it and the event before), Len(ev) + 1 is before   *)
(* or in the root's end tag, and Len(ev) + 2 after it. Whatever its kind,   *)
(* nothing from there on can be known.                                      *)
(***************************************************************************)
EXTENDS XmlRead

CONSTANT Hows            \* "cut", "fail", "broken"
VARIABLES at, how
dvars == <<at, how>>

AtEnd == Len(ev) + 2
DInitAt(d, a, h) == InitAt(d) /\ at = a /\ how = h
DInit == /\ Init /\ at \in 0..AtEnd /\ how \in Hows

\* the parser reaches event i + 1, or the end of the root
Reaches(j) == j < at
Step == /\ i < Len(ev) /\ Reaches(i + 1) /\ (StartObject \/ EndObject \/ Section \/ Other) /\ UNCHANGED dvars
\* The end of the document: a cut there takes away white space, or a comment
End == /\ at = AtEnd /\ how = "cut" /\ EndDoc /\ UNCHANGED dvars
\* After the end of the root, a reader need not look for more. Nor need it not.
EndAnyway == /\ at = AtEnd /\ how # "cut" /\ EndDoc /\ UNCHANGED dvars
Refuse == /\ mode = "reading"
          /\ IF at < AtEnd THEN ~Reaches(i + 1) ELSE i = Len(ev) /\ how # "cut"
          /\ mode' = "refused" /\ UNCHANGED <<doc, ev, i, els, push, del, out>> /\ UNCHANGED dvars
DNext == Step \/ End \/ EndAnyway \/ Refuse
DSpec == DInit /\ [][DNext]_<<vars, dvars>> /\ WF_<<vars, dvars>>(DNext)

------------------------------------------------------------------------------
\* The objects of these elements, each with the number of the event that ends it: n events were before
RECURSIVE Ended(_, _, _)
Ended(seq, inDelete, n) ==
    IF seq = <<>> THEN <<>>
    ELSE LET e == Head(seq)
             m == Len(Events(<<e>>))
             here == IF e.n \in ObjNames
                     THEN [j \in 1..Len(Meaning(<<e>>, inDelete)) |-> <<n + m, Meaning(<<e>>, inDelete)[j]>>]
                     ELSE IF e.n \in Sections THEN Ended(e.c, e.n = "delete", n + 1)
                     ELSE <<>>
         IN here \o Ended(Tail(seq), inDelete, n + m)
All == Ended(doc, FALSE, 0)
Whole == SelectSeq(All, LAMBDA p : p[1] < at)
Demanded == [j \in 1..Len(Whole) |-> Whole[j][2]]

\* whatever was delivered is of the document, in its order
DamagedPrefix == IsPrefix(out, Meaning(doc, FALSE))
\* all objects which are complete before the damage, and no others
AllBeforeDamage == mode # "reading" => out = Demanded
\* a document of which the end is missing is never taken for a complete one
NeverComplete == mode = "ended" => at = AtEnd /\ out = Meaning(doc, FALSE)
NeverRefusesGood == mode = "refused" => at < AtEnd \/ how # "cut"
Terminates == <>(mode # "reading")
DEmit == mode # "reading" => PrintT(ToJson([d |-> doc, at |-> at, h |-> how, x |-> out, end |-> mode]))

\* short sequences of elements, and sections
DamageDocs == {[j \in 1..Len(us) |-> Unit(us[j], j)] : us \in SeqsOf(Units \ {"halfpos", "badpos", "noidway", "badidrel", "bounds"}, 0, N)}
=============================================================================
