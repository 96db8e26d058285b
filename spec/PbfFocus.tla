---------------------------- MODULE PbfFocus ----------------------------
(* Sets of PBF files that exercise one aspect of the encoding each, exhaustively within the bounds. *)
EXTENDS Pbf
CONSTANT N                 \* the size of the bounds: 1 quick, 2 thorough

SeqsOf(S, lo, hi) == UNION {[1..m -> S] : m \in lo..hi}
One(st, groups) == <<[NewBlob("data") EXCEPT !.st = st, !.gr = groups]>>
D(objs) == NewGroup("dense", objs)
W(objs) == NewGroup("ways", objs)
R(objs) == NewGroup("relations", objs)
Full(o) == [o EXCEPT !.ver = 2, !.ts = 5, !.cs = 7, !.uid = 3, !.user = 4, !.vis = 1]

------------------------------------------------------------------------------
\* Tags: which object they belong to, their order, equal keys or values, empty strings, any string table
Tables == {<<1, 2, 3, 4, 5>>, <<5, 4, 3, 2, 1>>, <<3, 3, 1, 2, 1, 5, 4>>}
TagLists == {<<>>, <<<<1, 2>>>>, <<<<3, 4>>, <<1, 1>>>>} \cup (IF N > 1 THEN {<<<<2, 5>>, <<4, 3>>, <<1, 5>>>>} ELSE {})
TagFiles ==
    {One(st, <<D([i \in 1..Len(tl) |-> [NewObj("n", i) EXCEPT !.tags = tl[i]]])>>)
        : st \in Tables, tl \in SeqsOf(TagLists, 1, N + 2)}
    \cup UNION {{One(st, <<W([i \in 1..Len(tl) |-> [NewObj("w", i) EXCEPT !.tags = tl[i]]])>>),
          One(st, <<R([i \in 1..Len(tl) |-> [NewObj("r", i) EXCEPT !.tags = tl[i]]])>>)}
        : st \in Tables, tl \in SeqsOf(TagLists, 1, 2)}

------------------------------------------------------------------------------
\* Delta coding, one column at a time
Vals == {1, 4, 9}
Cols == {"id", "lat", "lon", "cs", "uid", "user", "ts", "ver"}
SetCol(o, c, v) ==
    CASE c = "id" -> [o EXCEPT !.id = v] [] c = "lat" -> [o EXCEPT !.lat = v] [] c = "lon" -> [o EXCEPT !.lon = v]
      [] c = "cs" -> [o EXCEPT !.cs = v] [] c = "uid" -> [o EXCEPT !.uid = v]
      [] c = "user" -> [o EXCEPT !.user = (v % 5)] [] c = "ts" -> [o EXCEPT !.ts = v] [] c = "ver" -> [o EXCEPT !.ver = v]
St == <<1, 2, 3, 4>>
\* lengths grow with N
DeltaDense == {One(St, <<D([i \in 1..Len(v) |-> SetCol(Full(NewObj("n", i)), c, v[i])])>>)
                  : c \in Cols, v \in SeqsOf(Vals, 1, N + 2)}
DeltaWays == {One(St, <<W(<<[NewObj("w", 5) EXCEPT !.refs = v], [NewObj("w", 6) EXCEPT !.refs = <<3>>]>>)>>)
                  : v \in SeqsOf({0, 5, 3}, 0, N + 3)}
Members == {<<t, id, role>> : t \in {"n", "w", "r"}, id \in {1, 6}, role \in {0, 3}}
DeltaRels == {One(St, <<R(<<[NewObj("r", 5) EXCEPT !.mem = v], [NewObj("r", 4) EXCEPT !.mem = <<<<"w", 2, 1>>>>]>>)>>)
                  : v \in SeqsOf(Members, 0, 2)}
DeltaFiles == DeltaDense \cup DeltaWays \cup DeltaRels

------------------------------------------------------------------------------
\* Nothing carries over from one object, group or block into the next
GroupOf(g, n) ==
    CASE g = "full" -> D(<<[Full(NewObj("n", n)) EXCEPT !.lat = n, !.lon = n + 1, !.tags = <<<<1, 2>>>>, !.user = 3],
                           [Full(NewObj("n", n + 3)) EXCEPT !.lat = 2, !.ts = n, !.cs = n]>>)
      [] g = "bare" -> D(<<[NewObj("n", n) EXCEPT !.lat = 1], NewObj("n", n + 1)>>)
      [] g = "tagged" -> D(<<NewObj("n", n), [NewObj("n", n + 1) EXCEPT !.tags = <<<<2, 3>>>>]>>)
      [] g = "meta" -> D(<<[NewObj("n", n) EXCEPT !.ts = n + 1, !.uid = 2, !.vis = 0]>>)
      [] g = "ways" -> W(<<[Full(NewObj("w", n)) EXCEPT !.refs = <<n, 2>>, !.tags = <<<<3, 1>>>>, !.vis = 0],
                           [NewObj("w", n + 1) EXCEPT !.refs = <<1>>]>>)
      [] g = "rels" -> R(<<[Full(NewObj("r", n)) EXCEPT !.mem = <<<<"n", n, 1>>, <<"r", 2, 3>>>>, !.tags = <<<<1, 4>>>>],
                           [NewObj("r", n + 1) EXCEPT !.mem = <<<<"w", 7, 0>>>>]>>)
Groups == {"full", "bare", "tagged", "meta", "ways", "rels"}
\* groups gs, with a new block before each group in `cuts`
RECURSIVE Cut(_, _, _, _)
Cut(gs, cuts, i, blocks) ==
    IF i > Len(gs) THEN blocks
    ELSE LET g == GroupOf(gs[i], i * 10)
             st == IF Len(blocks) % 2 = 0 THEN <<1, 2, 3, 4>> ELSE <<4, 3, 1, 2, 2>>
         IN IF i = 1 \/ i \in cuts
            THEN Cut(gs, cuts, i + 1,
                     Append(blocks, [NewBlob("data") EXCEPT !.st = IF i = 1 THEN <<1, 2, 3, 4>> ELSE <<4, 3, 1, 2, 2>>,
                                                            !.c = IF i % 2 = 0 THEN "raw" ELSE "zlib", !.gr = <<g>>]))
            ELSE Cut(gs, cuts, i + 1, [blocks EXCEPT ![Len(blocks)].gr = Append(@, g)])
CarryFiles == {Cut(gs, cuts, 1, <<>>) : gs \in SeqsOf(Groups, 2, N + 1), cuts \in SUBSET (2..(N + 1))}

------------------------------------------------------------------------------
\* Granularities and offsets
ScaledBlock(gran, la, lo, dg) ==
    [NewBlob("data") EXCEPT !.gran = gran, !.la = la, !.lo = lo, !.dg = dg,
        !.gr = <<D(<<[Full(NewObj("n", 1)) EXCEPT !.lat = 3, !.lon = -5, !.ts = 7],
                     [Full(NewObj("n", 2)) EXCEPT !.lat = -2, !.lon = 1, !.ts = 2],
                     [Full(NewObj("n", 3)) EXCEPT !.lat = 0, !.lon = 60, !.ts = 0]>>),
                 W(<<[Full(NewObj("w", 4)) EXCEPT !.ts = 9], [Full(NewObj("w", 5)) EXCEPT !.ts = 3]>>),
                 R(<<[Full(NewObj("r", 6)) EXCEPT !.ts = 13]>>)>>]
Grans == {0, 1, 100, 250, 1000} \cup (IF N > 1 THEN {33, 99, 101, 10000} ELSE {})
Offs == {0, 50, -7000} \cup (IF N > 1 THEN {1, -99, 123400} ELSE {})
DGs == {0, 1, 500, 60000} \cup (IF N > 1 THEN {999, 1000, 1500} ELSE {})
Some == {ScaledBlock(g, l, 0, d) : g \in {0, 1000}, l \in {0, 50}, d \in {0, 60000}}
ScaleFiles == {<<ScaledBlock(g, la, lo, d)>> : g \in Grans, la \in Offs, lo \in Offs, d \in DGs}
              \cup {<<a, b>> : a \in Some, b \in Some}

------------------------------------------------------------------------------
\* Optional metadata: any part of it can be missing
Fields == {"ver", "ts", "cs", "uid", "user", "vis"}
With(o, s, n) == [o EXCEPT !.ver = IF "ver" \in s THEN n ELSE None, !.ts = IF "ts" \in s THEN 10 - n ELSE None,
                           !.cs = IF "cs" \in s THEN 2 * n ELSE None, !.uid = IF "uid" \in s THEN n + 1 ELSE None,
                           !.user = IF "user" \in s THEN n % 3 ELSE None, !.vis = IF "vis" \in s THEN n % 2 ELSE None]
Dress(o) == [o EXCEPT !.tags = <<<<1, 2>>>>, !.lat = IF o.t = "n" THEN 3 ELSE 0,
                      !.refs = IF o.t = "w" THEN <<4, 5>> ELSE <<>>,
                      !.mem = IF o.t = "r" THEN <<<<"n", 4, 3>>>> ELSE <<>>]
MetaFiles ==
    {One(St, <<D([i \in 1..Len(n) |-> Dress(With(NewObj("n", i), s, n[i]))])>>)
        : s \in SUBSET Fields, n \in SeqsOf({1, 2}, 2, N + 1)}
    \cup UNION {{One(St, <<W(<<Dress(With(NewObj("w", 1), s, n)), Dress(With(NewObj("w", 2), s2, 1))>>)>>),
                 One(St, <<R(<<Dress(With(NewObj("r", 1), s, n)), Dress(With(NewObj("r", 2), s2, 1))>>)>>)}
                : s \in SUBSET Fields, n \in {1, 2}, s2 \in {{}, Fields, {"vis"}}}
=============================================================================
