----------------------------- MODULE ObjCopy -----------------------------
(***************************************************************************)
(* P27: objects are values. Several variables of a program ("slots") hold   *)
(* objects; an object can be copied from one to another, changed in one,    *)
(* and dropped. Copies share nothing that a call could tell: the contents   *)
(* of a slot follow from what was done to it and, before it was copied, to  *)
(* the one it was copied from. Equality is equality of the contents.        *)
(***************************************************************************)
EXTENDS ObjPool

CONSTANTS Starts, Edits(_), MaxLen
VARIABLES slots, start, hist, seen
vars == <<slots, start, hist, seen>>

No == Blank("-")      \* a slot without an object
Held(s, i) == s[i].t # "-"
\* an operation: op, the slot it reads (0: none), the slot it changes, the call
Op(op, i, j, x) == [op |-> op, i |-> i, j |-> j, x |-> x]
NoCall == Call("", 0, 0)
Target(p) == p.j

InitAt(s) == slots = s /\ start = s /\ hist = <<>> /\ seen = <<s>>
Did(p) == hist' = Append(hist, p) /\ seen' = Append(seen, slots') /\ UNCHANGED start
Copy(i, j) == i # j /\ Held(slots, i) /\ slots' = [slots EXCEPT ![j] = slots[i]] /\ Did(Op("copy", i, j, NoCall))
Drop(j) == Held(slots, j) /\ slots' = [slots EXCEPT ![j] = No] /\ Did(Op("drop", 0, j, NoCall))
Edit(j, x) == Held(slots, j) /\ Applies(slots[j], x) /\ slots' = [slots EXCEPT ![j] = Apply(@, x)] /\ Did(Op("edit", 0, j, x))
Step(p) == CASE p.op = "copy" -> Copy(p.i, p.j) [] p.op = "drop" -> Drop(p.j) [] p.op = "edit" -> Edit(p.j, p.x)

Init == \E s \in Starts : InitAt(s)
Next == /\ Len(hist) < MaxLen
        /\ \/ \E i, j \in 1..Len(slots) : Copy(i, j)
           \/ \E j \in 1..Len(slots) : Drop(j) \/ (\E x \in Edits(slots[j].t) : Edit(j, x))
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* Equality: of the kind and of every field
Equal(a, b) == a.t = b.t /\ \A f \in Fields : a[f] = b[f]
Matrix(s) == [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> Held(s, i) /\ Held(s, j) /\ Equal(s[i], s[j])]]

------------------------------------------------------------------------------
\* Independence: an operation changes its own slot only
Independent == [][\A k \in 1..Len(slots) : k # Target(hist'[Len(hist')]) => slots'[k] = slots[k]]_vars
\* The contents of a slot follow from its lineage alone, whatever happened to the others
RECURSIVE Lin(_, _)
Lin(k, n) == IF n = 0 THEN start[k]
             ELSE LET p == hist[n] IN
                  IF p.j # k THEN Lin(k, n - 1)
                  ELSE CASE p.op = "copy" -> Lin(p.i, n - 1)
                         [] p.op = "drop" -> No
                         [] p.op = "edit" -> Apply(Lin(k, n - 1), p.x)
ByLineage == \A k \in 1..Len(slots) : slots[k] = Lin(k, Len(hist))
\* A copy is equal to its original, until one of the two is changed, and equal again when the other one is changed alike
LastOn(k) == LET S == {n \in 1..Len(hist) : hist[n].j = k} IN IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : m <= n
CopiesEqual == \A n \in 1..Len(hist) :
                  (hist[n].op = "copy" /\ LastOn(hist[n].j) = n /\ LastOn(hist[n].i) < n) => Equal(slots[hist[n].i], slots[hist[n].j])
Alike == \A i, j \in 1..Len(slots) : (Held(slots, i) /\ Held(slots, j) /\ Equal(slots[i], slots[j])) =>
            /\ Answers(slots[i]) = Answers(slots[j])
            /\ Equal(Converted(slots[i]), Converted(slots[j]))
            /\ \A x \in Edits(slots[i].t) : Applies(slots[i], x) => Equal(Apply(slots[i], x), Apply(slots[j], x))
Equivalence == \A i, j, k \in 1..Len(slots) : LET m == Matrix(slots) IN
                  /\ m[i][i] = Held(slots, i)
                  /\ m[i][j] = m[j][i]
                  /\ (m[i][j] /\ m[j][k]) => m[i][k]
Emit == (Len(hist) = MaxLen) => PrintT(ToJson([s |-> start, h |-> hist, x |-> seen, eq |-> [n \in 1..Len(seen) |-> Matrix(seen[n])]]))
=============================================================================
