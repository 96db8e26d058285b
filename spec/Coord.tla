------------------------------- MODULE Coord -------------------------------
(***************************************************************************)
(* P20: coordinates. A machine reads a text character by character and      *)
(* keeps the number it denotes so far, exactly: a sign, the whole multiples *)
(* u of the unit (1e-7 degree) and what is below, in thousandths of a unit  *)
(* (rest; below that only whether anything is left: dust). At the end the   *)
(* text is no number, out of range, or denotes the nearest value: the set   *)
(* `Nearest` of one value, or of two where it lies half way.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Digits, MaxWhole, MaxFrac, MaxMore, Junk, Stems         \* MaxMore: characters after the stem
VARIABLES text, state, neg, whole, frac, nfrac, dust, more
vars == <<text, state, neg, whole, frac, nfrac, dust, more>>
\* whole: the degrees (up to 99999), frac: the first ten digits after the point, as <<seven digits, three digits>>

Ch(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]
Pow(n) == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000>>[n + 1]

\* a stem: a start of a text which the machine goes on from; [text, neg, whole, f7, f3, n: digits after the point or -1]
Stem(t, ng, w, f7, f3, n) == [t |-> t, neg |-> ng, w |-> w, f |-> <<f7, f3>>, n |-> n]

Init == \E s \in Stems : /\ text = s.t /\ neg = s.neg /\ whole = s.w /\ frac = s.f /\ dust = FALSE /\ more = 0
                         /\ nfrac = IF s.n < 0 THEN 0 ELSE s.n
                         /\ state = IF s.n >= 0 THEN "frac" ELSE IF s.t \in {"", "-", "+"} THEN "start" ELSE "int"
WholeDigit == /\ state \in {"start", "int"} /\ whole < MaxWhole /\ Len(text) < 6
              /\ \E x \in Digits : whole' = 10 * whole + x /\ text' = text \o Ch(x)
              /\ state' = "int" /\ UNCHANGED <<neg, frac, nfrac, dust>>
Point == /\ state \in {"start", "int"} /\ text' = text \o "."
         /\ state' = (IF state = "start" THEN "bare" ELSE "frac") /\ UNCHANGED <<neg, whole, frac, nfrac, dust>>
FracDigit == /\ state \in {"bare", "frac"} /\ nfrac < MaxFrac
             /\ \E x \in Digits :
                   /\ text' = text \o Ch(x)
                   /\ IF nfrac < 7 THEN frac' = <<frac[1] + x * Pow(6 - nfrac), frac[2]>> /\ UNCHANGED dust
                      ELSE IF nfrac < 10 THEN frac' = <<frac[1], frac[2] + x * Pow(9 - nfrac)>> /\ UNCHANGED dust
                      ELSE dust' = (dust \/ x # 0) /\ UNCHANGED frac
             /\ nfrac' = nfrac + 1 /\ state' = "frac" /\ UNCHANGED <<neg, whole>>
\* anything else spoils the text for good
Garbage == /\ state' = "bad" /\ UNCHANGED <<neg, whole, frac, nfrac, dust>>
           /\ \/ \E ch \in Junk : text' = text \o ch
              \/ state # "start" /\ \E ch \in {"-", "+"} : text' = text \o ch
              \/ state \in {"bare", "frac"} /\ text' = text \o "."
              \/ state = "bad" /\ \E x \in Digits : text' = text \o Ch(x)
Next == more < MaxMore /\ more' = more + 1 /\ (WholeDigit \/ Point \/ FracDigit \/ Garbage)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
IsNumber == state \in {"int", "frac"}
Limit == 2147483647
\* The units are whole * 10^7 + f7; more than the limit if whole > 214, or = 214 and f7 > 7483647 (7483648 below zero)
Top == IF neg THEN 7483648 ELSE 7483647
Above == whole > 214 \/ (whole = 214 /\ frac[1] > Top)                        \* by a unit at least
AtTop == whole = 214 /\ frac[1] = Top
Units == whole * 10000000 + frac[1]                                          \* if ~Above and ~(neg /\ AtTop)
\* The lower neighbour (in absolute value) is representable; the upper one is unless AtTop
Part == IF frac[2] < 500 THEN "lower" ELSE IF frac[2] > 500 \/ dust THEN "upper" ELSE "either"
Show(k) == IF neg THEN -k ELSE k
\* what may come out: values, as <<high, low>> = degrees and units below (TLC's numbers end at the limit), or "no"
Split(w, f) == IF f = 10000000 THEN <<w + 1, 0>> ELSE <<w, f>>
Lower == Split(whole, frac[1])
Upper == Split(whole, frac[1] + 1)
\* Out of range: rejected. Between the greatest value and the next unit: rejected or the greatest value.
Outcomes == IF ~IsNumber THEN {<<"no">>}
            ELSE IF Above THEN {<<"no">>}
            ELSE IF AtTop THEN (IF Part = "lower" /\ frac[2] = 0 /\ ~dust THEN {Lower} ELSE IF Part = "lower" THEN {Lower, <<"no">>}
                                ELSE IF Part = "either" THEN {Lower, <<"no">>} ELSE {<<"no">>})
            ELSE CASE Part = "lower" -> {Lower} [] Part = "upper" -> {Upper} [] OTHER -> {Lower, Upper}

\* The nearest: nothing else is nearer
DistOk == (IsNumber /\ ~Above /\ ~AtTop) =>
            LET below == frac[2] * 2 + (IF dust THEN 1 ELSE 0) above == 2000 - below
            IN /\ Lower \in Outcomes => below <= above
               /\ Upper \in Outcomes => above <= below
               /\ Outcomes # {} /\ <<"no">> \notin Outcomes
Exact == (IsNumber /\ ~Above /\ frac[2] = 0 /\ ~dust) => Outcomes = {Lower}
RangeOk == (IsNumber /\ ~Above /\ ~AtTop) => Units <= Limit /\ Units >= 0
Emit == PrintT(ToJson([text |-> text, neg |-> neg, out |-> Outcomes]))
=============================================================================
