----------------------------- MODULE XmlRound -----------------------------
(***************************************************************************)
(* P08: what XMLWriter and OSCWriter write is read back as the same         *)
(* objects. The writer turns objects into elements (it writes them all in   *)
(* one <modify> section of a change file); reading is that of XmlDoc.       *)
(***************************************************************************)
EXTENDS XmlDoc
CONSTANTS N, ObjSeqs
VARIABLES objs, change
rvars == <<vars, objs, change>>

Opt(k, v) == IF v = None THEN <<>> ELSE <<<<k, v>>>>
WriteTag(t) == <<El("tag", <<<<"k", t[1]>>, <<"v", t[2]>>>>, <<>>)>>
WriteNd(r) == <<El("nd", <<<<"ref", r>>>>, <<>>)>>
WriteMember(m) == <<El("member", <<<<"type", m[1]>>, <<"ref", m[2]>>, <<"role", m[3]>>>>, <<>>)>>
WriteObj(o) ==
    El(o.t,
       <<<<"id", o.id>>, <<"visible", IF o.del THEN 0 ELSE 1>>>>
         \o Opt("version", o.ver) \o Opt("user", o.user) \o Opt("uid", o.uid) \o Opt("changeset", o.cs)
         \o Opt("timestamp", o.ts)
         \o (IF o.ll = <<>> THEN <<>> ELSE <<<<"lat", o.ll[1]>>, <<"lon", o.ll[2]>>>>),
       Collect(WriteNd, o.nodes) \o Collect(WriteMember, o.mem) \o Collect(WriteTag, o.tags))
WriteAll(os) == [j \in 1..Len(os) |-> WriteObj(os[j])]
WriteDoc(os, ch) == IF ch THEN <<El("modify", <<>>, WriteAll(os))>> ELSE WriteAll(os)

RInit == /\ \E os \in ObjSeqs : objs = os
         /\ change \in BOOLEAN
         /\ InitAt(WriteDoc(objs, change))
RNext == Next /\ UNCHANGED <<objs, change>>
RSpec == RInit /\ [][RNext]_rvars

RoundTrip == mode = "ended" => out = objs
Prefix == IsPrefix(out, objs)
\* no element but what the objects are written as
OneElementEach == Len(WriteAll(objs)) = Len(objs)
REmit == (mode = "ended" /\ ~change) => PrintT(ToJson([o |-> objs]))

------------------------------------------------------------------------------
SeqsOf(S, lo, hi) == UNION {[1..m -> S] : m \in lo..hi}
O(t, id, f, ll, tags, kids) ==
    [t |-> t, id |-> id, ver |-> f[1], cs |-> f[2], uid |-> f[3], user |-> f[4], ts |-> f[5], del |-> f[6] = 1,
     ll |-> IF t = "node" THEN ll ELSE <<>>, tags |-> tags,
     nodes |-> IF t = "way" THEN kids ELSE <<>>, mem |-> IF t = "relation" THEN kids ELSE <<>>]
Bare == <<None, None, None, None, None, 0>>
Full == <<1, 2, 3, 4, 5, 0>>
Next1 == O("way", 9, Full, <<>>, <<<<1, 2>>>>, <<1, 2>>)

\* A. any subset of the optional fields, with an empty, a zero or another value, before another object
OptVals == IF N = 1 THEN {None, 3} ELSE {None, 0, 3}
Lls == {<<>>, <<1, 2>>, <<0, 0>>}
FieldSeqs == {<<O(t, 1, <<v, c, u, s, w, d>>, ll, tg, <<>>), Next1>> :
                 t \in ObjNames, v \in OptVals, c \in OptVals, u \in OptVals, s \in OptVals, w \in OptVals, d \in {0, 1},
                 ll \in Lls, tg \in {<<>>, <<<<1, 2>>>>}}
\* B. children
Pairs == {<<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 0>>, <<0, 1>>}
Refs == {1, 2, 0}
Mems == {<<1, 1, 1>>, <<2, 1, 0>>, <<3, 2, 2>>, <<1, 2, 1>>}
KidSeqs == {<<O("node", 1, Full, <<1, 2>>, tg, <<>>), Next1>> : tg \in SeqsOf(Pairs, 0, N + 1)}
     \cup {<<O("way", 1, Bare, <<>>, tg, ks), Next1>> : tg \in SeqsOf(Pairs, 0, N), ks \in SeqsOf(Refs, 0, N + 2)}
     \cup {<<O("relation", 1, Bare, <<>>, tg, ks), Next1>> : tg \in SeqsOf(Pairs, 0, N), ks \in SeqsOf(Mems, 0, N + 1)}
\* C. sequences
Some == {O("node", 1, Full, <<1, 2>>, <<>>, <<>>), O("node", 2, Bare, <<>>, <<<<1, 2>>>>, <<>>), O("node", 3, Bare, <<>>, <<>>, <<>>),
         O("way", 4, Full, <<>>, <<<<2, 1>>, <<1, 3>>>>, <<3, 1>>), O("way", 5, Bare, <<>>, <<>>, <<>>),
         O("way", 5, <<1, None, None, None, None, 1>>, <<>>, <<<<3, 3>>>>, <<>>),
         O("relation", 6, Full, <<>>, <<>>, <<<<1, 1, 1>>, <<3, 6, 0>>>>), O("relation", 7, Bare, <<>>, <<<<1, 1>>>>, <<>>)}
ListSeqs == SeqsOf(Some, 0, N + 2)
=============================================================================
