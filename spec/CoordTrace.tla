----------------------------- MODULE CoordTrace -----------------------------
(* Conversions recorded from the real code, judged: what the input denotes exactly, and what came of it. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACE)

\* the state of the machine at the end of the text; "number" e.neg e.w e.f = <<units, thousandths>> e.dust, or not a number
M(e) == INSTANCE Coord WITH Digits <- {}, MaxWhole <- 0, MaxFrac <- 0, MaxMore <- 0, Junk <- {}, Stems <- {}, text <- "", more <- 0, nfrac <- 0,
                            state <- (IF e.num THEN "frac" ELSE "bad"), neg <- e.neg, whole <- e.w, frac <- e.f, dust <- e.dust
Ok(e) == IF e.num THEN e.out \in M(e)!Outcomes ELSE e.out = <<"no">>
Init == tr \in DOMAIN Traces /\ i = 1
Step == i <= Len(Traces[tr].e) /\ Ok(Traces[tr].e[i]) /\ i' = i + 1 /\ UNCHANGED tr
Spec == Init /\ [][Step]_<<tr, i>>
Accepted == i = Len(Traces[tr].e) + 1 => PrintT(ToJson([acc |-> tr]))
=============================================================================
