--------------------------- MODULE ObjCopyTrace ---------------------------
(* Validates recorded histories of several objects, copied and changed: after each step, every slot and every comparison. *)
EXTENDS ObjCopy, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
tvars == <<vars, tr, i>>
T == Traces[tr]
AnyEdits(t) == {}
Matches(s, e) == /\ e.eq = Matrix(s) /\ e.ne = [a \in 1..Len(s) |-> [b \in 1..Len(s) |-> Held(s, a) /\ Held(s, b) /\ ~Equal(s[a], s[b])]]
                 /\ e.o = s
TInit == \E t \in 1..Len(Traces) : tr = t /\ i = 1 /\ InitAt(Traces[t].s) /\ Matches(Traces[t].s, Traces[t].e[1])
TNext == i <= Len(T.h) /\ Step(T.h[i]) /\ i' = i + 1 /\ UNCHANGED tr /\ Matches(slots', T.e[i'])
TSpec == TInit /\ [][TNext]_tvars
Accepted == (i = Len(T.h) + 1) => PrintT(ToJson([acc |-> tr]))
View == <<tr, i>>
=============================================================================
