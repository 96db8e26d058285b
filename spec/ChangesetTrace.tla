-------------------------- MODULE ChangesetTrace --------------------------
(* Validates recorded reads of real changeset dumps, whole or cut: there must be a run of the reader  *)
(* of Changeset over the dump (cut somewhere after its m first elements) which gives the same.         *)
EXTENDS Changeset, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tr
TInit == \E t \in 1..Len(Traces) :
            /\ tr = t
            /\ LET T == Traces[t] IN
               IF T.m = None THEN InitAt(T.d, T.r, Len(Events(T.d)), FALSE)
               ELSE \E n \in 0..Len(Events(T.d)) : Len(Whole(T.d, n)) = T.m /\ InitAt(T.d, T.r, n, n < Len(Events(T.d)))
TNext == Next /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<vars, tr>>
\* tags of the full reader have no order
Norm(x) == IF ~x.ok THEN Error
           ELSE IF rd = "full" THEN [x EXCEPT !.tags = {x.tags[j] : j \in 1..Len(x.tags)}]
           ELSE [ok |-> TRUE, id |-> x.id, tags |-> x.tags]
Obs == Traces[tr].obs
Same == IF rd = "tags" THEN LET a == Oks(Obs) b == Oks(out)
                            IN Len(a) = Len(b) /\ \A j \in 1..Len(a) : Norm(a[j]) = Norm(b[j])
        ELSE LET n == Len(Expected)
             IN /\ Len(Obs) >= n /\ \A j \in 1..n : Norm(Obs[j]) = Norm(out[j])
                /\ \A j \in (n + 1)..Len(Obs) : ~Obs[j].ok
                /\ (Traces[tr].m = None) => Len(Obs) = n
Accepted == (mode = "ended" /\ Same) => PrintT(ToJson([acc |-> tr]))
View == <<tr, avail, mid, i, mode>>
=============================================================================
