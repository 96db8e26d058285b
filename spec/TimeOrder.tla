----------------------------- MODULE TimeOrder -----------------------------
(* P19: comparing. Three time stamps around a day; their order is that of the instants, whatever   *)
(* the representations, and that is an order.                                                      *)
EXTENDS Time
CONSTANTS Days, Deltas      \* days since 0000-01-01
VARIABLES a, b, c
ovars == <<a, b, c>>
\* a time stamp: rep: "num" or the offset of a text; i: its instant
Near(dd) == {LET s == (IF x < 0 THEN 86400 + x ELSE x) IN <<(IF x < 0 THEN dd - 1 ELSE dd), s>> : x \in Deltas \cup {-e : e \in Deltas}}
Stamps(dd) == {[num |-> TRUE, i |-> i, off |-> 0] : i \in Near(dd)} \cup {[num |-> FALSE, i |-> i, off |-> o] : i \in Near(dd), o \in Offsets}
OInit == /\ \E n \in Days : LET dd == n - Epoch IN a \in Stamps(dd) /\ b \in Stamps(dd) /\ c \in Stamps(dd)
         /\ day = 0 /\ y = 1970 /\ m = 1 /\ d = 1 /\ left = 0
OSpec == OInit /\ [][UNCHANGED <<vars, ovars>>]_<<vars, ovars>>
Cmp(p, q) == Order(p.i, q.i)
Total == Cmp(a, b) \in {-1, 0, 1} /\ Cmp(a, b) = -Cmp(b, a)
Transitive == (Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0) => (Cmp(a, c) <= 0 /\ (Cmp(a, c) = 0 => Cmp(a, b) = 0 /\ Cmp(b, c) = 0))
Show(p) == [num |-> p.num, day |-> p.i[1], sec |-> p.i[2], text |-> Text(p.i[1], p.i[2], p.off)]
\* each pair once
EmitPair == (c = a) => PrintT(ToJson([k |-> "pair", a |-> Show(a), b |-> Show(b), o |-> Cmp(a, b)]))
=============================================================================
