------------------------------- MODULE Obj -------------------------------
(***************************************************************************)
(* P17, P18, P23: histories of calls on one object.                         *)
(***************************************************************************)
EXTENDS ObjOps

CONSTANTS Starts, Alphabet, MaxLen
VARIABLES obj, start, hist, seen, res
vars == <<obj, start, hist, seen, res>>

InitAt(o) == obj = o /\ start = o /\ hist = <<>> /\ seen = <<o>> /\ res = <<>>
Do(x) == /\ Applies(obj, x)
         /\ obj' = Apply(obj, x)
         /\ hist' = Append(hist, x) /\ seen' = Append(seen, obj') /\ res' = Append(res, ~Rejected(x))
         /\ UNCHANGED start
Init == \E o \in Starts : InitAt(o)
Next == Len(hist) < MaxLen /\ \E x \in Alphabet : Do(x)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* Which field a call is about
Touches(x) == CASE x.c \in {"tag", "untag"} -> {"tags"}
                [] x.c = "strip" -> {"uid", "user", "cs"}
                [] x.c \in {"ll", "llunset", "llnone", "lldeg"} -> {"ll"}
                [] x.c = "members" -> {"mem"}
                [] OTHER -> {x.c}
Frame == [][\A f \in Fields : LET x == hist'[Len(hist')] IN
                 (Rejected(x) \/ f \notin Touches(x)) => obj'[f] = obj[f]]_vars
\* Tags as a function of the history alone: the last call about the key decides
About(k) == {i \in 1..Len(hist) : hist[i].c \in {"tag", "untag"} /\ hist[i].a = k}
LastOf(S) == CHOOSE i \in S : \A j \in S : j <= i
Valued(k) == IF About(k) = {} THEN TagOf(start.tags, k)
             ELSE IF hist[LastOf(About(k))].c = "tag" THEN hist[LastOf(About(k))].b ELSE None
Keys == {hist[i].a : i \in {j \in 1..Len(hist) : hist[j].c \in {"tag", "untag"}}} \cup {start.tags[i][1] : i \in 1..Len(start.tags)}
MapSemantics == \A k \in Keys : TagOf(obj.tags, k) = Valued(k)
Distinct == \A i, j \in 1..Len(obj.tags) : obj.tags[i][1] = obj.tags[j][1] => i = j
\* Order: by the time since when the key has been there without a break (0, minus its place, at the start)
GoneAt(k, i) == ~HasKey(seen[i].tags, k)
Since(k) == IF \E i \in 1..Len(seen) : GoneAt(k, i) THEN 100 + LastOf({i \in 1..Len(seen) : GoneAt(k, i)}) ELSE PosOf(start.tags, k)
Ordered == \A i, j \in 1..Len(obj.tags) : i < j => Since(obj.tags[i][1]) < Since(obj.tags[j][1])
\* A scalar field has what was last set
LastSet(c) == {i \in 1..Len(hist) : hist[i].c = c \/ (hist[i].c = "strip" /\ c \in {"uid", "user", "cs"})}
Scalars == \A c \in {"id", "ver", "cs", "ts", "uid", "user"} :
              obj[c] = IF LastSet(c) = {} THEN start[c]
                       ELSE LET x == hist[LastOf(LastSet(c))] IN IF x.c = "strip" THEN None ELSE x.a
SameConverted == Converted(obj) = obj
Asked == LET q == Answers(obj) IN
           /\ (q.n = 0) = (\A k \in Keys : TagOf(obj.tags, k) = None)
           /\ q.closed = (Len(obj.nodes) > 0 /\ Head(obj.nodes) = obj.nodes[Len(obj.nodes)])
           /\ q.area => q.closed
Emit == (Len(hist) = MaxLen) => PrintT(ToJson([s |-> start, h |-> hist, x |-> seen, r |-> res, q |-> [i \in 1..Len(seen) |-> Answers(seen[i])]]))
=============================================================================
