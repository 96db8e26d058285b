--------------------------- MODULE ObjCopyHist ---------------------------
(* Starts and calls for ObjCopy. *)
EXTENDS ObjCopy
CONSTANT N
CopyLen == N
\* Any two or three objects that differ by a call each: how they compare
Calls(o) == {x \in AllCalls : Applies(o, x)}
PairStarts == UNION {UNION {{<<o, Apply(o, x), Apply(o, y)>> : y \in Calls(o)} : x \in Calls(o)} : o \in {Full(t) : t \in Kinds} \cup {TaggedStart(t, n) : t \in Kinds, n \in {0, 2}}}
\* ... that differ in one component of one entry of a list
Detail(o) == {o} \cup {[o EXCEPT !.tags[i][j] = 4] : i \in 1..Len(o.tags), j \in 1..2}
             \cup (CASE o.t = "n" -> {[o EXCEPT !.ll[j] = 5] : j \in 1..2} \cup {[o EXCEPT !.ll = Reverse(@)]}
                     [] o.t = "w" -> {[o EXCEPT !.nodes[i] = 4] : i \in 1..Len(o.nodes)} \cup {[o EXCEPT !.nodes = Tail(@)]}
                     [] o.t = "r" -> {[o EXCEPT !.mem[i][1] = 2] : i \in 1..Len(o.mem)} \cup {[o EXCEPT !.mem[i][2] = 4] : i \in 1..Len(o.mem)}
                                     \cup {[o EXCEPT !.mem[i][3] = 4] : i \in 1..Len(o.mem)} \cup {[o EXCEPT !.mem = Reverse(@)]}
                     [] OTHER -> {})
DetailStarts == UNION {{<<a, b>> : a \in Detail(Full(t)), b \in Detail(Full(t))} : t \in Kinds}
\* ... and of different kinds, which have all else in common
Bare(t) == [Blank(t) EXCEPT !.id = 4, !.user = 0]
MixedStarts == {<<Bare("n"), Bare("w"), Bare("r")>>, <<Bare("w"), Full("w"), Bare("r")>>, <<Full("n"), No, Full("r")>>}
\* tags in another order, a user without a name
Turned(o) == [o EXCEPT !.tags = Reverse(o.tags)]
FewStarts == {<<Full(t), No, No>> : t \in Kinds} \cup {<<TaggedStart(t, 1), TaggedStart(t, 0), No>> : t \in Kinds}
             \cup {<<TaggedStart(t, 3), Turned(TaggedStart(t, 3)), [TaggedStart(t, 3) EXCEPT !.user = 0]>> : t \in Kinds} \cup MixedStarts
FewEdits(t) == {Call("tag", 1, 2), Call("untag", 1, 0), Call("user", 0, 0), Call("strip", 0, 0)}
               \cup (CASE t = "n" -> {Call("ll", 2, 1), Call("llunset", 0, 0)}
                       [] t = "w" -> {CallNodes(<<1, 2, 1>>), CallNodes(<<>>)}
                       [] t = "r" -> {CallMembers(<<<<1, 2, 1>>, <<3, 1, 0>>>>), CallMembers(<<>>)}
                       [] OTHER -> {})
OneStarts == {<<TaggedStart(t, 1), No>> : t \in Kinds}
NoEdits(t) == {}
=============================================================================
