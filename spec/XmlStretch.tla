---------------------------- MODULE XmlStretch ----------------------------
(***************************************************************************)
(* Size (as in PbfStretch): with each object element of a document replaced *)
(* by a run of q.o of them, each child of an object by a run of q.c, and    *)
(* the whole repeated q.f times, the reader delivers what it delivers for   *)
(* the document, stretched in the same way. Checked for small q; the replay *)
(* uses the same functions (compared with what is emitted here) with q in   *)
(* the thousands.                                                           *)
(***************************************************************************)
EXTENDS XmlRead
CONSTANT Qs
VARIABLES base, q
svars == <<vars, base, q>>

\* copy j (from 0) of a text, an id and a reference
Txt(x, j) == IF x <= 0 THEN x ELSE x + 10 * j
Num(x, n, j) == IF x < 0 THEN x ELSE x * n + j
RunOf(s, n, F(_, _)) == [k \in 1..(Len(s) * n) |-> F(s[(k - 1) \div n + 1], (k - 1) % n)]

StretchKid(p, e, j) ==
    [e EXCEPT !.a = [k \in 1..Len(e.a) |->
        LET n == e.a[k][1] v == e.a[k][2] IN
        <<n, CASE n \in {"k", "v", "role"} -> Txt(v, j) [] n = "ref" -> Num(v, p.c, j) [] OTHER -> v>>]]
StretchElement(p, e, j) ==
    [e EXCEPT !.a = [k \in 1..Len(e.a) |->
        LET n == e.a[k][1] v == e.a[k][2] IN
        <<n, CASE n = "user" -> Txt(v, j) [] n = "id" -> Num(v, p.o, j) [] OTHER -> v>>],
              !.c = RunOf(e.c, p.c, LAMBDA x, m : StretchKid(p, x, m))]
RECURSIVE StretchSeq(_, _)
StretchSeq(p, seq) ==
    IF seq = <<>> THEN <<>>
    ELSE LET e == Head(seq) IN
         (IF e.n \in ObjNames THEN [j \in 1..p.o |-> StretchElement(p, e, j - 1)]
          ELSE IF e.n \in Sections THEN <<[e EXCEPT !.c = StretchSeq(p, @)]>>
          ELSE <<e>>) \o StretchSeq(p, Tail(seq))
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
StretchDoc(p, d) == Times(StretchSeq(p, d), p.f)

StretchOut(p, x, j) ==
    [x EXCEPT !.id = Num(@, p.o, j), !.user = Txt(@, j),
              !.tags = RunOf(@, p.c, LAMBDA t, m : <<Txt(t[1], m), Txt(t[2], m)>>),
              !.nodes = RunOf(@, p.c, LAMBDA r, m : Num(r, p.c, m)),
              !.mem = RunOf(@, p.c, LAMBDA t, m : <<t[1], Num(t[2], p.c, m), Txt(t[3], m)>>)]

SInit == \E d \in Docs, p \in Qs : base = d /\ q = p /\ InitAt(StretchDoc(p, d))
SSpec == SInit /\ [][Next /\ UNCHANGED <<base, q>>]_svars
Uniform == mode = "ended" =>
    out = Times(RunOf(Meaning(base, FALSE), q.o, LAMBDA x, j : StretchOut(q, x, j)), q.f)
SEmit == mode = "ended" => PrintT(ToJson([d |-> base, x |-> Meaning(base, FALSE), q |-> q, dq |-> doc, xq |-> out]))

SmallQs == {[o |-> 1, c |-> 3, f |-> 1], [o |-> 3, c |-> 1, f |-> 2], [o |-> 2, c |-> 2, f |-> 1]}
StretchDocs == KidDocs \cup SeqDocs
=============================================================================
