---------------------------- MODULE PbfDamage ----------------------------
(***************************************************************************)
(* Reading a PBF file that is cut, whose source fails, or that holds a blob *)
(* the reader cannot decode (P07).                                          *)
(*                                                                          *)
(* A file is a sequence of blobs [k, c, n]: k is "data" or "skip" (header   *)
(* and unknown blobs), c whether a decoder can decode it, n the number of   *)
(* its objects, which are numbered through the file. On the wire a blob is  *)
(* a length, a header and a body. Damage is at one place: a segment of a    *)
(* blob, at its first byte or further inside. "cut": there is nothing from  *)
(* there on; "fail": the source reports an error there.                     *)
(* The actions are the reads and the decoding of FileReader / PBFReader.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxBlobs, MaxN

VARIABLES blobs, dmg, bi, seg, buf, out, mode
vars == <<blobs, dmg, bi, seg, buf, out, mode>>

Segs == {"len", "hdr", "body"}
NoDamage == [b |-> 0, s |-> "none", in |-> FALSE, how |-> "none"]
Damages(f) ==
    {NoDamage}
    \cup {[b |-> b, s |-> s, in |-> in, how |-> how] :
            b \in 1..Len(f), s \in Segs, in \in BOOLEAN, how \in {"cut", "fail"}}
    \cup {[b |-> Len(f) + 1, s |-> "len", in |-> FALSE, how |-> how] : how \in {"cut", "fail"}}

Kinds == {[k |-> "skip", c |-> "ok", n |-> 0], [k |-> "skip", c |-> "bad", n |-> 0]}
         \cup {[k |-> "data", c |-> c, n |-> n] : c \in {"ok", "bad"}, n \in 0..MaxN}
Files == UNION {[1..m -> Kinds] : m \in 0..MaxBlobs}

RECURSIVE Before(_, _)
Before(f, b) == IF b <= 1 THEN 0 ELSE f[b - 1].n + Before(f, b - 1)
Objs(f, b) == [i \in 1..f[b].n |-> Before(f, b) + i]

InitAt(f, d) == /\ blobs = f /\ dmg = d /\ bi = 1 /\ seg = "len" /\ buf = <<>> /\ out = <<>> /\ mode = "reading"
Init == \E f \in Files : \E d \in Damages(f) : InitAt(f, d)

Here == dmg.b = bi /\ dmg.s = seg
Reading == mode = "reading" /\ buf = <<>>
Refuse == mode' = "refused" /\ UNCHANGED <<blobs, dmg, bi, seg, buf, out>>
End == mode' = "ended" /\ UNCHANGED <<blobs, dmg, bi, seg, buf, out>>

\* The length of a blob's header: before it is the only place where a file may end
ReadLen == /\ Reading /\ seg = "len"
           /\ IF Here /\ dmg.how = "fail" THEN Refuse
              ELSE IF (Here /\ ~dmg.in) \/ bi > Len(blobs) THEN End
              ELSE IF Here THEN Refuse
              ELSE seg' = "hdr" /\ UNCHANGED <<blobs, dmg, bi, buf, out, mode>>
ReadHdr == /\ Reading /\ seg = "hdr"
           /\ IF Here THEN Refuse ELSE seg' = "body" /\ UNCHANGED <<blobs, dmg, bi, buf, out, mode>>
ReadBody == /\ Reading /\ seg = "body"
            /\ IF Here THEN Refuse
               ELSE IF blobs[bi].k = "skip"
               THEN bi' = bi + 1 /\ seg' = "len" /\ UNCHANGED <<blobs, dmg, buf, out, mode>>
               ELSE seg' = "decode" /\ UNCHANGED <<blobs, dmg, bi, buf, out, mode>>
Decode == /\ Reading /\ seg = "decode"
          /\ IF blobs[bi].c = "bad" THEN Refuse
             ELSE buf' = Objs(blobs, bi) /\ bi' = bi + 1 /\ seg' = "len" /\ UNCHANGED <<blobs, dmg, out, mode>>
Deliver == /\ mode = "reading" /\ buf # <<>>
           /\ out' = Append(out, Head(buf)) /\ buf' = Tail(buf)
           /\ UNCHANGED <<blobs, dmg, bi, seg, mode>>
Next == ReadLen \/ ReadHdr \/ ReadBody \/ Decode \/ Deliver
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
\* The blobs that precede every damage
FirstBad == LET bad == {b \in 1..Len(blobs) : blobs[b].k = "data" /\ blobs[b].c = "bad"}
            IN IF bad = {} THEN Len(blobs) + 1 ELSE CHOOSE b \in bad : \A x \in bad : b <= x
Intact == LET d == IF dmg.b = 0 THEN Len(blobs) + 1 ELSE dmg.b
          IN (IF d < FirstBad THEN d ELSE FirstBad) - 1
True == [i \in 1..Before(blobs, Intact + 1) |-> i]

TruePrefix == IsPrefix(out, True)
AllBeforeDamage == mode # "reading" => out = True
\* P07: the end is only reported where a file can end
EndIsEnd == mode = "ended" =>
    /\ FirstBad > (IF dmg.b = 0 THEN Len(blobs) ELSE dmg.b - 1)
    /\ \/ dmg = NoDamage
       \/ dmg.how = "cut" /\ dmg.s = "len" /\ ~dmg.in
       \* the damage comes after the end
       \/ dmg.b > Len(blobs) /\ dmg.how = "cut"
NeverRefusesGood == mode = "refused" => dmg # NoDamage \/ FirstBad <= Len(blobs)
Terminates == <>(mode # "reading")

Emit == mode # "reading" => PrintT(ToJson([f |-> blobs, d |-> dmg, n |-> Len(out), end |-> mode]))
=============================================================================
