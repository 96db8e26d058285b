---------------------------- MODULE PbfStruct ----------------------------
(* The structure of PBF files (P01, P05, P21): sequences of blobs of any kind, with any groups. *)
EXTENDS Pbf
CONSTANTS MaxBlobs, MaxGroups, MaxObjs, MaxTotal, Rich

GroupKinds == {"dense", "ways", "relations", "empty", "changesets"}
GroupShapes == {<<k, n>> : k \in {"dense", "ways", "relations"}, n \in 1..MaxObjs}
               \cup {<<"empty", 0>>, <<"dense", 0>>} \cup (IF Rich THEN {<<"changesets", 0>>} ELSE {})
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
BlobShapes == {<<"data", c, g>> : c \in {"raw", "zlib"}, g \in SeqsUpTo(GroupShapes, MaxGroups)}
              \cup {<<k, "zlib", <<>>>> : k \in {"header", "other"}}

RECURSIVE SumLen(_)
SumLen(gs) == IF gs = <<>> THEN 0 ELSE 1 + Head(gs)[2] + SumLen(Tail(gs))
Weight(b) == 1 + SumLen(b[3])
RECURSIVE SumW(_)
SumW(f) == IF f = <<>> THEN 0 ELSE Weight(Head(f)) + SumW(Tail(f))

Kind(k) == CASE k = "dense" -> "n" [] k = "ways" -> "w" [] OTHER -> "r"
\* ids are unique in the file: position in it
Obj(b, g, i, k) ==
    LET o == NewObj(Kind(k), b * 100 + g * 10 + i) IN
    IF k = "dense" THEN [o EXCEPT !.lat = i, !.lon = b, !.tags = IF i % 2 = 1 THEN <<<<1, 2>>>> ELSE <<>>]
    ELSE IF (b + g + i) % 2 = 1 THEN o       \* nothing but its id
    ELSE IF k = "ways" THEN [o EXCEPT !.refs = <<b, g, i>>, !.vis = g % 2]
    ELSE [o EXCEPT !.mem = <<<<"w", i, 3>>>>, !.ver = i]
Build(shape) ==
    [b \in 1..Len(shape) |->
        [NewBlob(shape[b][1]) EXCEPT !.c = shape[b][2],
            !.gr = [g \in 1..Len(shape[b][3]) |->
                LET gs == shape[b][3][g] IN
                NewGroup(gs[1], [i \in 1..gs[2] |-> Obj(b, g, i, gs[1])])]]]

\* built one blob at a time, keeping the total size within the bound
RECURSIVE ShapesUpTo(_)
ShapesUpTo(n) ==
    IF n = 0 THEN {<<>>}
    ELSE LET shorter == ShapesUpTo(n - 1) IN
         shorter \cup UNION {{Append(s, b) : b \in {x \in BlobShapes : SumW(s) + Weight(x) <= MaxTotal}} :
                               s \in {x \in shorter : Len(x) = n - 1}}
StructFiles == {Build(s) : s \in ShapesUpTo(MaxBlobs)}
=============================================================================
