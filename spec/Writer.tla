------------------------------ MODULE Writer ------------------------------
(***************************************************************************)
(* P09: the protocol of XMLWriter and OSCWriter (trait OSMWriter).          *)
(*                                                                          *)
(* What a writer delivers is a sequence of tokens: H (document start, with  *)
(* the headers), O (an object), E (document end). OSCWriter has no headers. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt

CONSTANTS Kinds,        \* writers to look at: "xml", "osc"
          Calls, MaxCalls
VARIABLES kind, st,     \* unmade, initial, writing, closed, gone
          hdrs,         \* headers set: sequence of <<key, value>>, one per key
          out, objs,    \* delivered tokens; objects accepted
          hist          \* calls, what they return, and whether the writer is open then
vars == <<kind, st, hdrs, out, objs, hist>>

Made == st \notin {"unmade", "gone"}
Note(c, r, s) == hist' = Append(hist, [c |-> c, r |-> r, open |-> IF s = "gone" THEN -1 ELSE IF s = "closed" THEN 0 ELSE 1])
H == [k |-> "H", n |-> 0]
O(n) == [k |-> "O", n |-> n]
E == [k |-> "E", n |-> 0]
Started(s, o) == IF s = "initial" THEN Append(o, H) ELSE o

Init == /\ kind \in Kinds /\ st \in {"unmade", "initial"}
        /\ hdrs = <<>> /\ out = <<>> /\ objs = <<>> /\ hist = <<>>

SetHeader(c) == /\ Made /\ c[1] = "hdr"
                /\ IF kind = "xml" /\ st = "initial"
                   THEN /\ hdrs' = Append(SelectSeq(hdrs, LAMBDA h : h[1] # c[2]), <<c[2], c[3]>>)
                        /\ Note(c, "ok", st)
                   ELSE UNCHANGED hdrs /\ Note(c, "err", st)
                /\ UNCHANGED <<kind, st, out, objs>>
WriteObj(c) == /\ Made /\ c[1] = "obj"
               /\ IF st = "closed"
                  THEN UNCHANGED <<st, out, objs>> /\ Note(c, "err", st)
                  ELSE /\ out' = Append(Started(st, out), O(c[2])) /\ objs' = Append(objs, c[2])
                       /\ st' = "writing" /\ Note(c, "ok", "writing")
               /\ UNCHANGED <<kind, hdrs>>
\* closing again does nothing; what it returns is not specified
Close(c) == /\ Made /\ c[1] = "close"
            /\ out' = IF st = "closed" THEN out ELSE Append(Started(st, out), E)
            /\ st' = "closed" /\ Note(c, IF st = "closed" THEN "any" ELSE "ok", "closed")
            /\ UNCHANGED <<kind, hdrs, objs>>
Drop(c) == /\ Made /\ c[1] = "drop"
           /\ out' = IF st = "closed" THEN out ELSE Append(Started(st, out), E)
           /\ st' = "gone" /\ Note(c, "ok", "gone")
           /\ UNCHANGED <<kind, hdrs, objs>>
FromIter(c) == /\ st = "unmade" /\ c[1] = "from_iter"
               /\ out' = <<H>> \o [j \in 1..Len(c[2]) |-> O(c[2][j])] \o <<E>>
               /\ objs' = c[2] /\ st' = "closed" /\ Note(c, "ok", "closed")
               /\ UNCHANGED <<kind, hdrs>>
Do(c) == SetHeader(c) \/ WriteObj(c) \/ Close(c) \/ Drop(c) \/ FromIter(c)
Next == \/ Len(hist) < MaxCalls /\ \E c \in Calls : c[1] # "drop" /\ Do(c)
        \/ Do(<<"drop">>)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Tokens(k) == SelectSeq(out, LAMBDA t : t.k = k)
HeaderOnceFirst == out # <<>> => out[1] = H /\ Len(Tokens("H")) = 1
\* the accepted objects, each once, in order
Objects == [j \in 1..Len(objs) |-> O(objs[j])] = Tokens("O")
NothingAfterEnd == \A j \in 1..Len(out) : out[j] = E => j = Len(out)
CompleteAtLast == st = "gone" => /\ Len(out) = Len(objs) + 2 /\ out[1] = H /\ out[Len(out)] = E
EndMeansClosed == (\E j \in 1..Len(out) : out[j] = E) <=> st \in {"closed", "gone"}
Refused == \A j \in 1..Len(hist) :
              (j > 1 /\ hist[j - 1].open = 0 /\ hist[j].c[1] \in {"hdr", "obj"}) => hist[j].r = "err" /\ hist[j].open = 0
OpenUntilClosed == \A j \in 1..Len(hist) :
              hist[j].open = 1 <=> ~ \E k \in 1..j : hist[k].c[1] \in {"close", "drop", "from_iter"}
\* once out, a token stays
AppendOnly == [][IsPrefix(out, out')]_vars
Emit == st = "gone" => PrintT(ToJson([k |-> kind, h |-> hist, hd |-> hdrs, o |-> objs]))

\* headers: 1 is one of the writer's own, 2 and 3 are others
StdCalls == {<<"hdr", 1, 1>>, <<"hdr", 2, 1>>, <<"hdr", 2, 2>>, <<"obj", 1>>, <<"obj", 2>>, <<"close">>, <<"drop">>,
             <<"from_iter", <<>>>>, <<"from_iter", <<1, 2>>>>}
=============================================================================
