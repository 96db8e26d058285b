---------------------------- MODULE TypedIter ----------------------------
(***************************************************************************)
(* Histories of calls on a reader: single objects, and iterations over one  *)
(* type (or all) that are consumed partly or wholly and then abandoned.     *)
(*                                                                          *)
(* `pos` is the abstract state: how many objects of the file have been      *)
(* passed. `bi`, `buf` is the state of the real reader, which decodes whole *)
(* blocks into a buffer and skips a block without decoding it, if it holds  *)
(* nothing of the type looked for (stringpbf; the other readers: never).    *)
(* The real reader refines the abstract one whatever the history.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sources,       \* sequences of blocks, a block being a sequence of kinds "n" "w" "r"
          Calls,         \* <<what, how many>>: what in "next" "objs" "n" "w" "r"; how many: 99 is all
          MaxCalls,
          MaySkip        \* whether the reader skips blocks

VARIABLES src, pos,      \* abstract
          bi, buf,       \* the reader
          cur,           \* the call in progress: <<>> or [what, k, got, end]
          hist           \* finished calls: [c, got, end]
vars == <<src, pos, bi, buf, cur, hist>>

Flat == FlattenSeq([b \in 1..Len(src) |-> src[b]])
Total == Len(Flat)
\* objects are known by their number in the file
Base(b) == Len(FlattenSeq(SubSeq(src, 1, b - 1)))
BlockObjs(b) == [i \in 1..Len(src[b]) |-> Base(b) + i]

Wants(what, kind) == what \in {"next", "objs"} \/ what = kind
Inf == 99

Init == /\ src \in Sources /\ pos = 0 /\ bi = 0 /\ buf = <<>> /\ cur = <<>> /\ hist = <<>>

Start(c) == /\ cur = <<>> /\ Len(hist) < MaxCalls
            /\ cur' = [c |-> c, got |-> <<>>, end |-> "more"]
            /\ UNCHANGED <<src, pos, bi, buf, hist>>
StartAny == \E c \in Calls : Start(c)

Running == cur # <<>> /\ cur.end = "more" /\ Len(cur.got) < cur.c[2]

TakeBlock == /\ Running /\ buf = <<>> /\ bi < Len(src)
             /\ bi' = bi + 1
             /\ LET objs == BlockObjs(bi')
                    wanted == \E i \in 1..Len(src[bi']) : Wants(cur.c[1], src[bi'][i])
                IN IF MaySkip /\ ~wanted THEN buf' = <<>> ELSE buf' = objs
             /\ UNCHANGED <<src, pos, cur, hist>>

Pop == /\ Running /\ buf # <<>>
       /\ buf' = Tail(buf)
       /\ pos' = IF Wants(cur.c[1], Flat[Head(buf)]) THEN Head(buf) ELSE pos
       /\ cur' = IF Wants(cur.c[1], Flat[Head(buf)]) THEN [cur EXCEPT !.got = Append(@, Head(buf))] ELSE cur
       /\ UNCHANGED <<src, bi, hist>>

NoMore == /\ Running /\ buf = <<>> /\ bi = Len(src)
          /\ cur' = [cur EXCEPT !.end = "none"]
          /\ pos' = Total
          /\ UNCHANGED <<src, bi, buf, hist>>

Finish == /\ cur # <<>> /\ ~Running
          /\ hist' = Append(hist, cur) /\ cur' = <<>>
          /\ UNCHANGED <<src, pos, bi, buf>>

Step == TakeBlock \/ Pop \/ NoMore \/ Finish
Next == StartAny \/ Step
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* What a call delivers, by the property: the objects not yet passed that are wanted, in order
RECURSIVE Wanted(_, _, _)
Wanted(what, from, k) ==
    IF k = 0 \/ from >= Total THEN <<>>
    ELSE IF Wants(what, Flat[from + 1]) THEN <<from + 1>> \o Wanted(what, from + 1, k - 1)
    ELSE Wanted(what, from + 1, k)
RECURSIVE PosBefore(_)
PosBefore(n) ==        \* where the n-th call starts
    IF n = 1 THEN 0
    ELSE LET h == hist[n - 1] IN
         IF h.end = "none" THEN Total
         ELSE IF h.got = <<>> THEN PosBefore(n - 1) ELSE h.got[Len(h.got)]

\* P06
EachCallExact == \A n \in 1..Len(hist) :
    LET w == Wanted(hist[n].c[1], PosBefore(n), hist[n].c[2]) IN
    /\ hist[n].got = w
    /\ hist[n].end = IF Len(w) < hist[n].c[2] THEN "none" ELSE "more"
\* The reader refines the abstract state: between calls, it has exactly the objects not yet passed
Rest == buf \o FlattenSeq([i \in 1..(Len(src) - bi) |-> BlockObjs(bi + i)])
Refines == cur = <<>> => Rest = [i \in 1..(Total - pos) |-> pos + i]
\* once ended, ended
EndStays == [][pos = Total => pos' = Total]_vars

\* Size: with each object replaced by a run of m of its kind, and each number asked for multiplied by m, each call
\* delivers the runs of what it delivered (the replay does so with m in the thousands)
RECURSIVE WantedIn(_, _, _, _)
WantedIn(flat, what, from, n) ==
    IF n = 0 \/ from >= Len(flat) THEN <<>>
    ELSE IF Wants(what, flat[from + 1]) THEN <<from + 1>> \o WantedIn(flat, what, from + 1, n - 1)
    ELSE WantedIn(flat, what, from + 1, n)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(flat, calls, i, from) ==
    IF i > Len(calls) THEN <<>>
    ELSE LET w == WantedIn(flat, calls[i][1], from, calls[i][2])
             ended == Len(w) < calls[i][2]
         IN <<[got |-> w, end |-> IF ended THEN "none" ELSE "more"]>>
            \o RunFrom(flat, calls, i + 1, IF ended THEN Len(flat) ELSE IF w = <<>> THEN from ELSE w[Len(w)])
RunOf(s, m, F(_, _)) == [i \in 1..(Len(s) * m) |-> F(s[(i - 1) \div m + 1], (i - 1) % m)]
StretchCall(c, m) == <<IF c[1] = "next" THEN "objs" ELSE c[1], c[2] * m>>
Stretches == (cur = <<>> /\ Len(hist) = MaxCalls) =>
    \A m \in {1, 3} :
        LET run == RunFrom(RunOf(Flat, m, LAMBDA x, j : x), [i \in 1..Len(hist) |-> StretchCall(hist[i].c, m)], 1, 0)
        IN run = [i \in 1..Len(hist) |-> [got |-> RunOf(hist[i].got, m, LAMBDA x, j : (x - 1) * m + j + 1), end |-> hist[i].end]]

\* The last call drains, so that what is left is observed as well
Emit == (cur = <<>> /\ Len(hist) = MaxCalls)
            => PrintT(ToJson([s |-> src, h |-> [i \in 1..Len(hist) |-> <<hist[i].c, hist[i].got, hist[i].end>>],
                              rest |-> [i \in 1..(Total - pos) |-> pos + i]]))

------------------------------------------------------------------------------
CONSTANTS MaxBlocks, MaxPerBlock, MaxTotal
SeqsOf(S, n) == UNION {[1..m -> S] : m \in 0..n}
Kinds == {"n", "w", "r"}
\* the types are interchangeable for the reader: name them in order of appearance
Canonical(f) == \A i \in 1..Len(f) :
    /\ f[i] = "w" => \E j \in 1..(i - 1) : f[j] = "n"
    /\ f[i] = "r" => \E j \in 1..(i - 1) : f[j] = "w"
SomeSources == {s \in SeqsOf(SeqsOf(Kinds, MaxPerBlock), MaxBlocks) :
                  LET f == FlattenSeq(s) IN Len(f) <= MaxTotal /\ Canonical(f)}
AllCalls == {<<"next", 1>>, <<"n", 1>>, <<"n", 2>>, <<"n", 99>>, <<"w", 1>>, <<"w", 99>>, <<"r", 1>>, <<"r", 99>>,
             <<"objs", 2>>, <<"objs", 99>>, <<"w", 0>>}
=============================================================================
