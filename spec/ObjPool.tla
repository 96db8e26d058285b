----------------------------- MODULE ObjPool -----------------------------
(* Objects to start from, and calls. *)
EXTENDS ObjOps
CONSTANT Kinds
Full(t) == [t |-> t, id |-> 5, ver |-> 2, del |-> TRUE, cs |-> 3, ts |-> 4, uid |-> 1, user |-> 2,
            tags |-> <<<<2, 1>>, <<1, 3>>>>, ll |-> IF t = "n" THEN <<1, 2>> ELSE <<>>,
            nodes |-> IF t = "w" THEN <<1, 2, 1>> ELSE <<>>,
            mem |-> IF t = "r" THEN <<<<1, 2, 1>>, <<3, 1, 0>>>> ELSE <<>>]
TaggedStart(t, n) == [Blank(t) EXCEPT !.tags = SubSeq(<<<<1, 1>>, <<3, 2>>, <<2, 2>>>>, 1, n),
                                    !.ll = IF t = "n" THEN <<0, 0>> ELSE <<>>, !.nodes = IF t = "w" THEN <<3, 3>> ELSE <<>>]
AllStarts == {Full(t) : t \in Kinds} \cup {TaggedStart(t, 0) : t \in Kinds}
TagStarts == {TaggedStart(t, n) : t \in Kinds, n \in 0..3}
NodeLists == {<<>>, <<1>>, <<1, 1>>, <<1, 2, 1>>, <<2, 1, 1>>, <<1, 2, 3, 4, 5, 6, 7>>, <<7, 1, 2, 3, 4, 5, 6, 7>>}
MemberLists == {<<>>, <<<<1, 1, 1>>>>, <<<<2, 1, 1>>, <<2, 1, 1>>, <<3, 4, 0>>>>, <<<<3, 2, 5>>, <<1, 2, 4>>>>}
SetNone == {Call(c, v, 0) : c \in {"ver", "cs", "ts", "uid", "user"}, v \in {None, 1, 2}}
Positions == {Call("ll", 1, 2), Call("ll", 2, 1), Call("llunset", 0, 0), Call("llnone", 0, 0), Call("lldeg", 2, 3),
              Call("lldeg", Bad, 1), Call("lldeg", 1, Bad), Call("lldeg", Bad, Bad)}
AllCalls == SetNone \cup {Call("id", v, 0) : v \in {0, 1}} \cup {Call("del", v, 0) : v \in {0, 1}} \cup {Call("strip", 0, 0)}
            \cup {Call("tag", 1, 2), Call("tag", 3, 1), Call("untag", 2, 0)} \cup Positions
            \cup {CallNodes(n) : n \in NodeLists} \cup {CallMembers(m) : m \in MemberLists}
TagCalls == {Call("tag", k, v) : k \in 1..3, v \in 1..2} \cup {Call("untag", k, 0) : k \in 1..3}
\* what the queries of ways and nodes depend on
AreaCalls == {Call("tag", 3, v) : v \in {0, 1, 2}} \cup {Call("tag", 1, 2), Call("untag", 3, 0), Call("untag", 1, 0), Call("llunset", 0, 0), Call("ll", 1, 1)}
             \cup {CallNodes(n) : n \in {<<>>, <<1>>, <<1, 2>>, <<1, 2, 1>>, <<0, 0>>, <<2, 1, 2, 2>>}} \cup {CallMembers(m) : m \in MemberLists}
=============================================================================
