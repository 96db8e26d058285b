----------------------------- MODULE ObjTrace -----------------------------
(* Validates recorded histories of real objects: each step of the trace is the call and what could be  *)
(* seen of the object after it (and of its conversion, and the answers), which must be what Obj does.   *)
EXTENDS Obj, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
tvars == <<vars, tr, i>>
T == Traces[tr]
\* what: "edit" (P17), "conv" (P18), "ask" (P23)
Matches(o, e) == CASE T.what = "edit" -> e.o = o
                   [] T.what = "conv" -> e.o = Converted(o)
                   [] T.what = "ask" -> /\ \A f \in DOMAIN Answers(o) : e.q[f] = Answers(o)[f]
                                        \* the JSON has the tags in some order; the other ways to ask agree with these
                                        /\ Len(e.q.js) = Len(o.tags) /\ ToSet(e.q.js) = ToSet(o.tags) /\ e.q.same
TInit == \E t \in 1..Len(Traces) : tr = t /\ i = 1 /\ InitAt(Traces[t].s) /\ Matches(Traces[t].s, Traces[t].e[1])
TNext == /\ i <= Len(T.h) /\ Do(T.h[i]) /\ i' = i + 1 /\ UNCHANGED tr
         /\ Matches(obj', T.e[i'])
         /\ (T.what = "edit" => T.e[i'].ok = ~Rejected(T.h[i]))
TSpec == TInit /\ [][TNext]_tvars
Accepted == (i = Len(T.h) + 1) => PrintT(ToJson([acc |-> tr]))
View == <<tr, i>>
=============================================================================
