------------------------------ MODULE XmlRead ------------------------------
(* Documents for P12 and P13. *)
EXTENDS XmlDoc
CONSTANT N

SeqsOf(S, lo, hi) == UNION {[1..m -> S] : m \in lo..hi}
T(k, v) == El("tag", <<<<"k", k>>, <<"v", v>>>>, <<>>)
Nd(r) == El("nd", <<<<"ref", r>>>>, <<>>)
M(t, r, role) == El("member", <<<<"type", t>>, <<"ref", r>>, <<"role", role>>>>, <<>>)
Hash == El("#", <<>>, <<>>)

------------------------------------------------------------------------------
\* A. sequences of elements: usable ones, unusable ones, and others
Unit(n, id) ==
    CASE n = "node" -> El("node", <<<<"id", id>>, <<"lat", 1>>, <<"lon", 2>>, <<"user", 3>>>>, <<T(1, 2)>>)
      [] n = "bare" -> El("node", <<<<"id", id>>>>, <<>>)
      [] n = "halfpos" -> El("node", <<<<"lat", 1>>, <<"id", id>>, <<"version", 2>>>>, <<>>)
      [] n = "badpos" -> El("node", <<<<"id", id>>, <<"lat", Bad>>, <<"lon", 2>>>>, <<>>)
      [] n = "badid" -> El("node", <<<<"id", Bad>>, <<"lat", 1>>, <<"lon", 2>>>>, <<T(1, 3)>>)
      [] n = "noidway" -> El("way", <<<<"version", 1>>>>, <<Nd(1), T(2, 2)>>)
      [] n = "badidrel" -> El("relation", <<<<"id", Bad>>>>, <<M(1, 1, 1)>>)
      [] n = "way" -> El("way", <<<<"id", id>>, <<"visible", 0>>>>, <<Nd(3), Hash, Nd(1)>>)
      [] n = "relation" -> El("relation", <<<<"uid", 4>>, <<"id", id>>>>, <<M(2, 3, 1), T(1, 2), M(1, 1, 0)>>)
      [] n = "other" -> El("note", <<<<"id", 9>>, <<"lat", 1>>>>, <<T(3, 3), El("nd", <<<<"ref", 1>>>>, <<>>)>>)
      [] n = "bounds" -> El("bounds", <<<<"minlat", 1>>>>, <<>>)
      [] n = "text" -> Hash
Units == {"node", "bare", "halfpos", "badpos", "badid", "noidway", "badidrel", "way", "relation", "other", "bounds", "text"}
SeqDocs == {[j \in 1..Len(us) |-> Unit(us[j], j)] : us \in SeqsOf(Units, 0, N + 1)}

------------------------------------------------------------------------------
\* B. attributes: absent, usable or not; in any order; unknown ones
AttrNames == <<"version", "changeset", "uid", "lat", "lon", "visible">>     \* can be unusable
Vals(n) == IF n = "visible" THEN {None, 0, 1, Bad} ELSE {None, 3, Bad}
Free == {"user", "timestamp"}                                              \* any text is usable
\* v: values of the attributes; f: which of Free; k: where the id stands
AttrList(v, f) ==
    LET add(n) == IF v[n] = None THEN <<>> ELSE <<<<n, v[n]>>>>
        names == <<"version", "changeset", "uid", "lat", "lon", "visible">>
    IN Collect(add, names) \o Collect(LAMBDA n : IF n \in f THEN <<<<n, 2>>>> ELSE <<>>, <<"user", "timestamp">>)
InsertId(a, k) == LET m == IF k > Len(a) THEN Len(a) ELSE k IN SubSeq(a, 1, m) \o <<<<"id", 1>>>> \o SubSeq(a, m + 1, Len(a))
AllVals == [ {"version", "changeset", "uid", "lat", "lon", "visible"} -> {None, 0, 1, 3, Bad} ]
AttrChoices == {v \in [{"version", "changeset", "uid", "lat", "lon", "visible"} -> {None, 0, 3, Bad}] :
              /\ v["visible"] # 3 /\ \A n \in {"version", "changeset", "uid", "lat", "lon"} : v[n] # 0
              \* all but N + 1 attributes are as usual
              /\ Cardinality({n \in DOMAIN v : v[n] # (IF n = "visible" THEN None ELSE 3)}) <= N + 1}
AttrDocs == {<<El(n, InsertId(AttrList(v, f), k), <<T(1, 2)>>), El("node", <<<<"id", 2>>>>, <<>>)>> :
                n \in ObjNames, v \in AttrChoices, f \in SUBSET Free, k \in {0, 2}}

------------------------------------------------------------------------------
\* C. children
Kids == {T(1, 2), T(3, 0), El("tag", <<<<"v", 1>>>>, <<>>), El("tag", <<<<"k", 2>>>>, <<>>), El("tag", <<<<"v", 2>>, <<"x", 1>>, <<"k", 4>>>>, <<>>),
         Nd(7), Nd(8), Nd(Bad), El("nd", <<>>, <<>>),
         M(1, 5, 2), M(3, 6, 0), M(Bad, 5, 2), M(2, Bad, 1), El("member", <<<<"ref", 4>>, <<"type", 2>>>>, <<>>),
         El("unknown", <<<<"k", 1>>, <<"v", 1>>, <<"ref", 1>>>>, <<>>), El("unknown", <<>>, <<Hash>>), Hash}
KidDocs == {<<El(n, <<<<"id", 1>>>>, ks), El("relation", <<<<"id", 2>>>>, <<M(1, 1, 1)>>)>> :
               n \in ObjNames, ks \in SeqsOf(Kids, 0, N + 1)}

------------------------------------------------------------------------------
\* P13: sections
Member3(id, v) == El(CASE id % 3 = 0 -> "way" [] id % 3 = 1 -> "node" [] OTHER -> "relation",
                     IF v = None THEN <<<<"id", id>>>> ELSE <<<<"id", id>>, <<"visible", v>>>>,
                     IF id % 2 = 0 THEN <<T(1, 2)>> ELSE <<>>)
Bodies(base) == {<<>>, <<Hash>>, <<Member3(base, None)>>, <<Member3(base, 0), Hash, Member3(base + 1, 1)>>,
                 <<Member3(base, 1)>>, <<El("node", <<<<"lat", 1>>>>, <<>>), Member3(base + 1, None)>>}
SecShapes(base) == {El(s, <<>>, b) : s \in Sections, b \in Bodies(base)}
                   \cup {Hash} \cup (IF N > 1 THEN {El("unknown", <<>>, <<Hash>>)} ELSE {})
RECURSIVE SecSeqs(_)
SecSeqs(m) == IF m = 0 THEN {<<>>}
              ELSE LET p == SecSeqs(m - 1) IN
                   p \cup {Append(s, x) : s \in {q \in p : Len(q) = m - 1}, x \in SecShapes(m * 10)}
SectionDocs == SecSeqs(N + 1)
=============================================================================
