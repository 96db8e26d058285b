---------------------------- MODULE Handover ----------------------------
(***************************************************************************)
(* P24: taking the source back from a PBF reader, and going on with another *)
(* reader of it. A reader takes whole blocks from its source, one after the *)
(* other, and none before it has delivered (or passed) what it has. So what *)
(* it has not delivered of its last block is lost with it, and nothing else *)
(* is. bi is at the same time how far the source has been read.             *)
(***************************************************************************)
EXTENDS TypedIter

\* The source is taken back, and read by a new reader
Over == /\ cur = <<>> /\ Len(hist) < MaxCalls
        /\ buf' = <<>> /\ pos' = Base(bi + 1)
        /\ hist' = Append(hist, [c |-> <<"over", 0>>, got |-> <<>>, end |-> "more", bi |-> bi])
        /\ UNCHANGED <<src, bi, cur>>
\* as Finish, with how far the source has been read
FinishAt == /\ cur # <<>> /\ ~Running
            /\ hist' = Append(hist, [c |-> cur.c, got |-> cur.got, end |-> cur.end, bi |-> bi]) /\ cur' = <<>>
            /\ UNCHANGED <<src, pos, bi, buf>>
HNext == StartAny \/ TakeBlock \/ Pop \/ NoMore \/ FinishAt \/ Over
HSpec == Init /\ [][HNext]_vars

------------------------------------------------------------------------------
\* What the property says, without any reader
BlockOf(n) == IF n = 0 THEN 0 ELSE CHOOSE b \in 1..Len(src) : Base(b) < n /\ n <= Base(b + 1)
RECURSIVE HPos(_)
HPos(n) ==             \* where the n-th call starts
    IF n = 1 THEN 0
    ELSE LET h == hist[n - 1]  p == HPos(n - 1) IN
         IF h.c[1] = "over" THEN IF p = Total THEN Total ELSE Base(BlockOf(p) + 1)
         ELSE IF h.end = "none" THEN Total
         ELSE IF h.got = <<>> THEN p ELSE h.got[Len(h.got)]
HEachCallExact == \A n \in 1..Len(hist) : hist[n].c[1] # "over" =>
    LET w == Wanted(hist[n].c[1], HPos(n), hist[n].c[2]) IN
    /\ hist[n].got = w
    /\ hist[n].end = IF Len(w) < hist[n].c[2] THEN "none" ELSE "more"
\* No object that was neither delivered nor passed, nor in the block of the last one, has been read from the source
NothingLost == \A n \in 1..Len(hist) :
    LET p == HPos(n + 1) IN Base(hist[n].bi + 1) = IF p = Total THEN Total ELSE Base(BlockOf(p) + 1)
HEmit == (cur = <<>> /\ Len(hist) = MaxCalls)
            => PrintT(ToJson([s |-> src, h |-> [i \in 1..Len(hist) |-> <<hist[i].c, hist[i].got, hist[i].end, Base(hist[i].bi + 1)>>],
                              rest |-> [i \in 1..(Total - pos) |-> pos + i]]))
HCalls == {<<"next", 1>>, <<"n", 1>>, <<"n", 99>>, <<"w", 1>>, <<"w", 0>>, <<"objs", 2>>, <<"r", 1>>}
=============================================================================
