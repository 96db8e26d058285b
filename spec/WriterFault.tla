---------------------------- MODULE WriterFault ----------------------------
(***************************************************************************)
(* P11: writers over a sink that fails.                                     *)
(*                                                                          *)
(* Each call of a history is to deliver a number of bytes (lens: what it    *)
(* delivers to a sink that never fails); the last one is the drop. The sink *)
(* takes them in any portions, and fails once it has taken `cap`: for good, *)
(* or a single time. After the first failure the document is lost: what     *)
(* later calls deliver and return is open, but a call during which the sink *)
(* fails returns an error, and nothing crashes.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Histories, MaxChunk
VARIABLES lens, refused,     \* what the calls deliver; those that are refused in any case
          cap, perm,
          ci, left,            \* call being made (0: none), and what it has still to deliver
          inCall, got, fails,  \* a call is being made; bytes delivered; failures of the sink
          failsAt,             \* bytes delivered at the first failure; -1: none
          failedNow,           \* the sink failed during this call
          res                  \* results
vars == <<lens, refused, cap, perm, ci, left, inCall, got, fails, failsAt, failedNow, res>>

Last == ci = Len(lens)         \* the drop: there is nobody to tell
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)

InitAt(h, rf, c, p) == /\ lens = h /\ refused = rf /\ cap = c /\ perm = p
                   /\ ci = 0 /\ left = 0 /\ inCall = FALSE /\ got = 0 /\ fails = 0 /\ failsAt = -1 /\ failedNow = FALSE /\ res = <<>>
Init == \E h \in Histories : \E c \in 0..(Sum(h, Len(h)) + 1), p \in BOOLEAN : InitAt(h, {j \in 1..(Len(h) - 1) : h[j] = 0}, c, p)

CanFail == got >= cap /\ (perm \/ fails = 0)
Call(n) == /\ ~inCall /\ ci < Len(lens)
           /\ ci' = ci + 1 /\ inCall' = TRUE /\ failedNow' = FALSE
           \* after a failure a call may try to deliver anything
           /\ fails = 0 => n = lens[ci + 1]
           /\ left' = n
           /\ UNCHANGED <<lens, refused, cap, perm, got, fails, failsAt, res>>
Deliver(k) == /\ inCall /\ left > 0 /\ k \in 1..left /\ ~failedNow
              /\ (perm \/ fails = 0) => got + k <= cap
              /\ got' = got + k /\ left' = left - k
              /\ UNCHANGED <<lens, refused, cap, perm, ci, inCall, fails, failsAt, failedNow, res>>
Fail == /\ inCall /\ left > 0 /\ CanFail /\ ~failedNow
        /\ fails' = fails + 1 /\ failsAt' = (IF failsAt = -1 THEN got ELSE failsAt) /\ failedNow' = TRUE /\ left' = 0
        /\ UNCHANGED <<lens, refused, cap, perm, ci, inCall, got, res>>
Return(r) == /\ inCall /\ left = 0
             /\ IF Last THEN r = "ok" ELSE IF failedNow THEN r = "io"
                ELSE fails = 0 => r = IF ci \in refused THEN "refused" ELSE "ok"
             /\ res' = Append(res, r) /\ inCall' = FALSE
             /\ UNCHANGED <<lens, refused, cap, perm, ci, left, got, fails, failsAt, failedNow>>
Next == (\E n \in 0..3 : Call(n)) \/ (\E k \in 1..MaxChunk : Deliver(k)) \/ Fail \/ \E r \in {"ok", "io", "refused"} : Return(r)
Spec == Init /\ [][Next]_vars
Done == ~inCall /\ ci = Len(lens)

\* a call during which the sink failed is an error, unless it is the drop
Reported == [][ (inCall /\ ~inCall' /\ failedNow /\ ~Last) => res'[Len(res')] = "io" ]_vars
\* what completed before the failure was delivered
Delivered == \A j \in 1..Len(res) : (fails = 0 /\ ~inCall) => got = Sum(lens, Len(res))
\* what was delivered before the first failure is a prefix: cut at cap
CutAtCap == fails > 0 => failsAt = cap
\* the call that fails first is the one that reaches cap
FirstFailure == LET errs == {j \in 1..Len(res) : res[j] = "io"}
                IN errs # {} => LET j == CHOOSE x \in errs : \A y \in errs : x <= y
                                IN Sum(lens, j - 1) <= cap /\ Sum(lens, j) > cap
Small == {<<2, 1, 1>>, <<2, 2, 0, 1, 0>>, <<1>>, <<0, 2, 1>>, <<3, 0>>, <<2, 1, 2, 1, 1>>}
=============================================================================
