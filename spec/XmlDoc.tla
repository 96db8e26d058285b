------------------------------ MODULE XmlDoc ------------------------------
(***************************************************************************)
(* OSM XML and change documents, what they mean, and how they are read.     *)
(*                                                                          *)
(* A document is a tree: elements [n: name, a: attributes, c: children].    *)
(* An attribute is <<name, value>>. Values are numbers here: Bad is a text  *)
(* that is not a value of this attribute; an absent attribute is not there. *)
(* The reader sees the document as a sequence of parser events only. It     *)
(* collects the events of one object and then builds it from them, as       *)
(* XMLReader and OSCReader do.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

None == -1
Bad == -2
CONSTANT Docs                 \* the documents to look at: sequences of elements (the children of the root)

VARIABLES doc, ev,            \* the document, and its parser events
          i,                  \* events taken
          els, push,          \* events of the object being read; whether they are being collected
          del,                \* inside a delete section
          out, mode
vars == <<doc, ev, i, els, push, del, out, mode>>

El(n, a, c) == [n |-> n, a |-> a, c |-> c]
ObjNames == {"node", "way", "relation"}
Sections == {"create", "modify", "delete"}

------------------------------------------------------------------------------
\* What a document means
RECURSIVE AttrAt(_, _, _)
AttrAt(a, k, j) == IF j > Len(a) THEN None ELSE IF a[j][1] = k THEN a[j][2] ELSE AttrAt(a, k, j + 1)
Attr(a, k) == AttrAt(a, k, 1)
Usable(v) == IF v = Bad THEN None ELSE v

TagOf(e) == IF e.n = "tag" /\ Attr(e.a, "k") # None /\ Attr(e.a, "v") # None
            THEN <<<<Attr(e.a, "k"), Attr(e.a, "v")>>>> ELSE <<>>
NodeOf(e) == IF e.n = "nd" /\ Usable(Attr(e.a, "ref")) # None THEN <<Attr(e.a, "ref")>> ELSE <<>>
MemberOf(e) == IF e.n = "member" /\ Usable(Attr(e.a, "ref")) # None /\ Usable(Attr(e.a, "type")) # None
               THEN <<<<Attr(e.a, "type"), Attr(e.a, "ref"), IF Attr(e.a, "role") = None THEN 0 ELSE Attr(e.a, "role")>>>>
               ELSE <<>>
RECURSIVE Collect(_, _)
Collect(F(_), s) == IF s = <<>> THEN <<>> ELSE F(Head(s)) \o Collect(F, Tail(s))

Position(a) == IF Usable(Attr(a, "lat")) # None /\ Usable(Attr(a, "lon")) # None
               THEN <<Attr(a, "lat"), Attr(a, "lon")>> ELSE <<>>
ObjOf(n, a, kids, inDelete) ==
    [t |-> n, id |-> Attr(a, "id"), ver |-> Usable(Attr(a, "version")), cs |-> Usable(Attr(a, "changeset")),
     ts |-> Attr(a, "timestamp"), uid |-> Usable(Attr(a, "uid")), user |-> Attr(a, "user"),
     \* visible: 1 true, 0 false
     del |-> inDelete \/ Attr(a, "visible") = 0,
     ll |-> IF n = "node" THEN Position(a) ELSE <<>>,
     tags |-> Collect(TagOf, kids),
     nodes |-> IF n = "way" THEN Collect(NodeOf, kids) ELSE <<>>,
     mem |-> IF n = "relation" THEN Collect(MemberOf, kids) ELSE <<>>]

RECURSIVE Meaning(_, _)
Meaning(seq, inDelete) ==
    IF seq = <<>> THEN <<>>
    ELSE LET e == Head(seq)
             here == IF e.n \in ObjNames
                     THEN (IF Usable(Attr(e.a, "id")) = None THEN <<>> ELSE <<ObjOf(e.n, e.a, e.c, inDelete)>>)
                     ELSE IF e.n \in Sections THEN Meaning(e.c, e.n = "delete")
                     ELSE <<>>
         IN here \o Meaning(Tail(seq), inDelete)

------------------------------------------------------------------------------
\* Its parser events
RECURSIVE Events(_)
Events(seq) ==
    IF seq = <<>> THEN <<>>
    ELSE LET e == Head(seq) IN
         (IF e.n = "#" THEN <<[k |-> "T", n |-> "#", a |-> <<>>]>>      \* text, a comment, ..
          ELSE <<[k |-> "S", n |-> e.n, a |-> e.a]>> \o Events(e.c) \o <<[k |-> "E", n |-> e.n, a |-> <<>>]>>)
         \o Events(Tail(seq))

------------------------------------------------------------------------------
\* The reader
Build(es, d) ==       \* the object made of these events, or nothing
    LET s == Head(es) IN
    IF s.k # "S" \/ Usable(Attr(s.a, "id")) = None THEN <<>>
    ELSE <<ObjOf(s.n, s.a, SelectSeq(Tail(es), LAMBDA e : e.k = "S"), d)>>

InitAt(d) == /\ doc = d /\ ev = Events(d) /\ i = 0 /\ els = <<>> /\ push = FALSE /\ del = FALSE /\ out = <<>> /\ mode = "reading"
Init == \E d \in Docs : InitAt(d)

Take == /\ mode = "reading" /\ i < Len(ev) /\ i' = i + 1
E1 == ev[i + 1]
\* the start of an object
StartObject == /\ Take /\ E1.k = "S" /\ E1.n \in ObjNames
               /\ push' = TRUE /\ els' = Append(els, E1)
               /\ UNCHANGED <<doc, ev, del, out, mode>>
\* the end of an object: deliver it, or leave it out
EndObject == /\ Take /\ E1.k = "E" /\ E1.n \in ObjNames
             /\ out' = out \o Build(els, del)
             /\ els' = <<>> /\ push' = FALSE
             /\ UNCHANGED <<doc, ev, del, mode>>
Section == /\ Take /\ E1.k \in {"S", "E"} /\ E1.n = "delete"
           /\ del' = (E1.k = "S")
           /\ UNCHANGED <<doc, ev, els, push, out, mode>>
Other == /\ Take /\ E1.n \notin ObjNames /\ E1.n # "delete"
         /\ els' = IF push THEN Append(els, E1) ELSE els
         /\ UNCHANGED <<doc, ev, push, del, out, mode>>
EndDoc == /\ mode = "reading" /\ i = Len(ev) /\ mode' = "ended"
          /\ UNCHANGED <<doc, ev, i, els, push, del, out>>
Next == StartObject \/ EndObject \/ Section \/ Other \/ EndDoc
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* P12, P13
AllDelivered == mode = "ended" => out = Meaning(doc, FALSE)
InOrder == IsPrefix(out, Meaning(doc, FALSE))
\* nothing of an object is left when it ends
NoLeak == ~push => els = <<>>
\* P13
DeleteSection == mode = "ended" => del = FALSE
Emit == mode = "ended" => PrintT(ToJson([d |-> doc, x |-> out]))
=============================================================================
