--------------------------- MODULE ChangesetDocs ---------------------------
(* Dumps for Changeset. *)
EXTENDS Changeset
CONSTANT N
SeqsOf(S, lo, hi) == UNION {[1..m -> S] : m \in lo..hi}
Hash == El("#", <<>>, <<>>)
T(k, v) == Self("tag", <<<<"k", k>>, <<"v", v>>>>)
Usual(id) == <<<<"id", id>>, <<"created_at", 1>>, <<"closed_at", 2>>, <<"open", 0>>, <<"user", 3>>, <<"uid", 4>>,
               <<"min_lat", 1>>, <<"num_changes", 5>>, <<"comments_count", 2>>>>
Open(id) == <<<<"comments_count", 0>>, <<"created_at", 3>>, <<"num_changes", 0>>, <<"open", 1>>, <<"id", id>>>>
Without(a, k) == SelectSeq(a, LAMBDA p : p[1] # k)
With(a, k, v) == [j \in 1..Len(a) |-> IF a[j][1] = k THEN <<k, v>> ELSE a[j]]
Discussion == El("discussion", <<>>, <<El("comment", <<<<"id", 7>>, <<"uid", 8>>, <<"user", 4>>, <<"date", 1>>>>, <<El("text", <<>>, <<Hash>>)>>)>>)

Unit(n, id) ==
    CASE n = "good" -> El("changeset", Usual(id), <<T(1, id), T(2, 3)>>)
      [] n = "open" -> El("changeset", Open(id), <<Hash>>)
      [] n = "talk" -> El("changeset", Usual(id), <<T(3, 4), Discussion, T(4, 1)>>)
      [] n = "self" -> Self("changeset", Usual(id))
      [] n = "selfopen" -> Self("changeset", Open(id))
      [] n = "badid" -> El("changeset", With(Usual(id), "id", Bad), <<T(1, 5)>>)
      [] n = "noid" -> El("changeset", Without(Usual(id), "id"), <<T(2, 5), T(1, 1)>>)
      [] n = "selfbad" -> Self("changeset", With(Usual(id), "open", Bad))
      [] n = "selfnoid" -> Self("changeset", Without(Open(id), "id"))
      [] n = "nodate" -> El("changeset", Without(Open(id), "created_at"), <<T(5, 5)>>)
      [] n = "badnum" -> El("changeset", With(Usual(id), "num_changes", Bad), <<T(6, 5)>>)
      [] n = "badtag" -> El("changeset", Usual(id), <<T(7, 5), Self("tag", <<<<"k", 8>>>>), T(8, 6)>>)
      [] n = "badtag2" -> El("changeset", Open(id), <<El("tag", <<<<"v", 8>>>>, <<>>), T(5, 6)>>)
      [] n = "other" -> Self("bounds", <<<<"id", 3>>>>)
      [] n = "text" -> Hash
Units == {"good", "open", "talk", "self", "selfopen", "badid", "noid", "selfbad", "selfnoid", "nodate", "badnum", "badtag", "badtag2",
          "other", "text"}
SeqDocs == {[j \in 1..Len(us) |-> Unit(us[j], j)] : us \in SeqsOf(Units, 0, N + 1)}

Attrs == {"id", "created_at", "closed_at", "open", "user", "uid", "num_changes", "comments_count"}
Texts == {"created_at", "closed_at", "user"}
Variants == {f \in [Attrs -> {"usual", "none", "bad"}] :
               /\ \A k \in Texts : f[k] # "bad"
               /\ Cardinality({k \in Attrs : f[k] # "usual"}) <= N + 1}
Apply(f, a) == Collect(LAMBDA p : IF p[1] \notin Attrs THEN <<p>>
                                  ELSE CASE f[p[1]] = "usual" -> <<p>> [] f[p[1]] = "none" -> <<>> [] OTHER -> <<<<p[1], Bad>>>>, a)
AttrDocs == {<<IF s THEN Self("changeset", Apply(f, a)) ELSE El("changeset", Apply(f, a), <<T(1, 2)>>), Unit("good", 2)>> :
               s \in BOOLEAN, f \in Variants, a \in {Usual(1), Open(1)}}

Kids == {T(1, 2), T(2, 0), El("tag", <<<<"v", 3>>, <<"k", 3>>>>, <<>>), El("tag", <<<<"x", 1>>, <<"k", 4>>, <<"v", 4>>>>, <<Hash>>),
         Self("tag", <<<<"k", 5>>>>), El("tag", <<>>, <<>>), Discussion, Hash, Self("unknown", <<<<"k", 1>>, <<"v", 1>>>>)}
DistinctKeys(ks) == \A a, b \in 1..Len(ks) : (ks[a].n = "tag" /\ ks[b].n = "tag" /\ Attr(ks[a].a, "k") = Attr(ks[b].a, "k")
                                             /\ Attr(ks[a].a, "k") # None) => a = b
KidDocs == {<<El("changeset", Open(1), ks), Unit("open", 2), Unit("self", 3)>> : ks \in {k \in SeqsOf(Kids, 0, N + 2) : DistinctKeys(k)}}
=============================================================================
