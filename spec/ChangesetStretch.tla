------------------------- MODULE ChangesetStretch -------------------------
(***************************************************************************)
(* Size (as in PbfStretch): with each changeset replaced by a run of q.o,   *)
(* each of its children by a run of q.c and the whole repeated q.f times,   *)
(* the readers deliver what they deliver for the dump, stretched alike.     *)
(***************************************************************************)
EXTENDS ChangesetDocs
CONSTANT Qs
VARIABLES base, q
svars == <<vars, base, q>>

Txt(x, j) == IF x <= 0 THEN x ELSE x + 10 * j
Num(x, n, j) == IF x < 0 THEN x ELSE x * n + j
RunOf(s, n, F(_, _)) == [k \in 1..(Len(s) * n) |-> F(s[(k - 1) \div n + 1], (k - 1) % n)]
StretchKid(e, j) ==
    IF e.n # "tag" THEN e
    ELSE [e EXCEPT !.a = [k \in 1..Len(e.a) |-> IF e.a[k][1] \in {"k", "v"} THEN <<e.a[k][1], Txt(e.a[k][2], j)>> ELSE e.a[k]]]
StretchElement(p, e, j) ==
    [e EXCEPT !.a = [k \in 1..Len(e.a) |->
                        CASE e.a[k][1] = "id" -> <<"id", Num(e.a[k][2], p.o, j)>>
                          [] e.a[k][1] = "user" -> <<"user", Txt(e.a[k][2], j)>> [] OTHER -> e.a[k]],
              !.c = RunOf(e.c, p.c, StretchKid)]
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
StretchSeq(p, d) == Collect(LAMBDA e : IF e.n = "changeset" THEN [j \in 1..p.o |-> StretchElement(p, e, j - 1)] ELSE <<e>>, d)
StretchDump(p, d) == Times(StretchSeq(p, d), p.f)

StretchTags(p, ts) == RunOf(ts, p.c, LAMBDA t, m : <<Txt(t[1], m), Txt(t[2], m)>>)
StretchResult(p, x, j) ==
    IF ~x.ok THEN x
    ELSE IF rd = "full" THEN [x EXCEPT !.id = Num(@, p.o, j), !.user = Txt(@, j), !.tags = StretchTags(p, @)]
    ELSE [x EXCEPT !.id = Num(@, p.o, j), !.tags = StretchTags(p, @)]
BaseResults == IF rd = "full" THEN Full(base) ELSE TagsOnly(base)

SInit == \E d \in Docs, r \in Readers, p \in Qs :
            base = d /\ q = p /\ InitAt(StretchDump(p, d), r, Len(Events(StretchDump(p, d))), FALSE)
SSpec == SInit /\ [][Next /\ UNCHANGED <<base, q>>]_svars
Uniform == mode = "ended" =>
    (IF rd = "full" THEN out ELSE Oks(out)) = Times(RunOf(BaseResults, q.o, LAMBDA x, j : StretchResult(q, x, j)), q.f)
SEmit == mode = "ended" => PrintT(ToJson([d |-> base, r |-> rd, x |-> BaseResults, q |-> q, dq |-> doc, xq |-> Expected]))
SmallQs == {[o |-> 1, c |-> 3, f |-> 1], [o |-> 3, c |-> 1, f |-> 2], [o |-> 2, c |-> 2, f |-> 1]}
StretchDocs == KidDocs \cup SeqDocs
=============================================================================
