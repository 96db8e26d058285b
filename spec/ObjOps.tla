------------------------------ MODULE ObjOps ------------------------------
(***************************************************************************)
(* An object as a value: what it consists of, what each call makes of it,   *)
(* what can be asked of it, and what its conversion consists of.            *)
(*                                                                          *)
(* Values are numbers; None stands for an absent one. Every representation  *)
(* (String, Arc, Rc; on its own or in the wrapper for any kind of object)   *)
(* is this one object.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

None == -1
Bad == -2            \* degrees which no position has
AreaKey == 3
NoValue == 2
\* a call: c: which, a, b: numbers, n: node references, m: members
Call(c, a, b) == [c |-> c, a |-> a, b |-> b, n |-> <<>>, m |-> <<>>]
CallNodes(n) == [c |-> "nodes", a |-> 0, b |-> 0, n |-> n, m |-> <<>>]
CallMembers(m) == [c |-> "members", a |-> 0, b |-> 0, n |-> <<>>, m |-> m]

Blank(t) == [t |-> t, id |-> 0, ver |-> None, del |-> FALSE, cs |-> None, ts |-> None, uid |-> None, user |-> None,
             tags |-> <<>>, ll |-> <<>>, nodes |-> <<>>, mem |-> <<>>]
Fields == {"id", "ver", "del", "cs", "ts", "uid", "user", "tags", "ll", "nodes", "mem"}

------------------------------------------------------------------------------
\* Tags: a list without equal keys
HasKey(ts, k) == \E i \in 1..Len(ts) : ts[i][1] = k
PosOf(ts, k) == CHOOSE i \in 1..Len(ts) : ts[i][1] = k
SetTag(ts, k, v) == IF HasKey(ts, k) THEN [ts EXCEPT ![PosOf(ts, k)] = <<k, v>>] ELSE Append(ts, <<k, v>>)
UnsetTag(ts, k) == SelectSeq(ts, LAMBDA t : t[1] # k)
TagOf(ts, k) == IF HasKey(ts, k) THEN ts[PosOf(ts, k)][2] ELSE None

Rejected(x) == x.c = "lldeg" /\ (x.a = Bad \/ x.b = Bad)
Apply(o, x) ==
    CASE x.c = "id" -> [o EXCEPT !.id = x.a]
      [] x.c = "ver" -> [o EXCEPT !.ver = x.a]
      [] x.c = "del" -> [o EXCEPT !.del = (x.a = 1)]
      [] x.c = "cs" -> [o EXCEPT !.cs = x.a]
      [] x.c = "ts" -> [o EXCEPT !.ts = x.a]
      [] x.c = "uid" -> [o EXCEPT !.uid = x.a]
      [] x.c = "user" -> [o EXCEPT !.user = x.a]
      [] x.c = "tag" -> [o EXCEPT !.tags = SetTag(o.tags, x.a, x.b)]
      [] x.c = "untag" -> [o EXCEPT !.tags = UnsetTag(o.tags, x.a)]
      [] x.c = "strip" -> [o EXCEPT !.uid = None, !.user = None, !.cs = None]
      [] x.c = "ll" -> [o EXCEPT !.ll = <<x.a, x.b>>]
      [] x.c \in {"llunset", "llnone"} -> [o EXCEPT !.ll = <<>>]
      [] x.c = "lldeg" -> IF Rejected(x) THEN o ELSE [o EXCEPT !.ll = <<x.a, x.b>>]
      [] x.c = "nodes" -> [o EXCEPT !.nodes = x.n]
      [] x.c = "members" -> [o EXCEPT !.mem = x.m]
Applies(o, x) == CASE x.c \in {"ll", "llunset", "llnone", "lldeg"} -> o.t = "n"
                   [] x.c = "nodes" -> o.t = "w"
                   [] x.c = "members" -> o.t = "r"
                   [] OTHER -> TRUE

------------------------------------------------------------------------------
\* What can be asked
IsClosed(o) == o.nodes # <<>> /\ o.nodes[1] = o.nodes[Len(o.nodes)]
IsArea(o) == IsClosed(o) /\ TagOf(o.tags, AreaKey) # NoValue
AskKeys == <<0, 1, 2, 3, 4>>
Answers(o) == [tag |-> [i \in 1..Len(AskKeys) |-> TagOf(o.tags, AskKeys[i])],
           n |-> Len(o.tags), left |-> [i \in 1..(Len(o.tags) + 1) |-> Len(o.tags) + 1 - i],
           at |-> [i \in 1..(Len(o.nodes) + 2) |-> IF i <= Len(o.nodes) THEN o.nodes[i] ELSE None],
           closed |-> IsClosed(o), area |-> IsArea(o), ll |-> o.ll # <<>>,
           mleft |-> [i \in 1..(Len(o.mem) + 1) |-> Len(o.mem) + 1 - i]]
\* The object in another representation: built field by field from what can be asked of this one
Retag(from) == FoldLeft(LAMBDA ts, t : SetTag(ts, t[1], t[2]), <<>>, from)
Converted(o) == [Blank(o.t) EXCEPT !.id = o.id, !.ver = o.ver, !.del = o.del, !.cs = o.cs, !.ts = o.ts, !.uid = o.uid, !.user = o.user,
                                  !.tags = Retag(o.tags), !.ll = o.ll, !.nodes = o.nodes, !.mem = o.mem]
=============================================================================
