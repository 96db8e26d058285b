------------------------------- MODULE Time -------------------------------
(***************************************************************************)
(* P19: time stamps. An instant is <<day, second of the day>>, day 0 being  *)
(* 1970-01-01 (so that years 0 to 9999 fit TLC's numbers; the epoch number  *)
(* is 86400 * day + second). The calendar is a machine that turns its pages,*)
(* one day at a time; DayOf and Date, which need no machine, must agree     *)
(* with it. A time stamp is a number, or a text: the date and second of the *)
(* day where the clock is off minutes ahead of UTC.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Years, Span, Seconds, Ahead, Behind      \* Ahead, Behind: offsets from UTC, in minutes
Offsets == Ahead \cup {-x : x \in Behind}
VARIABLES day, y, m, d, left
vars == <<day, y, m, d, left>>

Leap(year) == (year % 4 = 0 /\ year % 100 # 0) \/ year % 400 = 0
MonthLen(year, month) == IF month = 2 THEN (IF Leap(year) THEN 29 ELSE 28)
                         ELSE IF month \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days before the year, since 0000-01-01
Before(year) == 365 * year + (year + 3) \div 4 - (year + 99) \div 100 + (year + 399) \div 400
RECURSIVE InYear(_, _)
InYear(year, month) == IF month = 1 THEN 0 ELSE InYear(year, month - 1) + MonthLen(year, month - 1)
Epoch == Before(1970)
DayOf(year, month, date) == Before(year) + InYear(year, month) + date - 1 - Epoch
RECURSIVE MonthAt(_, _, _)
MonthAt(year, month, rest) == IF rest < MonthLen(year, month) THEN <<month, rest + 1>> ELSE MonthAt(year, month + 1, rest - MonthLen(year, month))
YearAt(n) == LET g == n \div 366 IN CHOOSE yy \in g..(g + 30) : Before(yy) <= n /\ n < Before(yy + 1)
Date(dd) == LET n == dd + Epoch yy == YearAt(n) md == MonthAt(yy, 1, n - Before(yy)) IN <<yy, md[1], md[2]>>

Init == \E yy \in Years : y = yy /\ m = 1 /\ d = 1 /\ day = DayOf(yy, 1, 1) /\ left = Span
Turn == /\ left > 0 /\ left' = left - 1 /\ day' = day + 1
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Turn]_vars

CalendarAgrees == DayOf(y, m, d) = day /\ Date(day) = <<y, m, d>>
EpochIsZero == (y = 1970 /\ m = 1 /\ d = 1) = (day = 0)

------------------------------------------------------------------------------
\* the local date and second of an instant
Local(dd, s, off) == LET l == s + 60 * off
                         dl == IF l < 0 THEN dd - 1 ELSE IF l >= 86400 THEN dd + 1 ELSE dd
                     IN <<dl, IF l < 0 THEN l + 86400 ELSE IF l >= 86400 THEN l - 86400 ELSE l>>
Text(dd, s, off) == LET l == Local(dd, s, off) IN Date(l[1]) \o <<l[2], off>>
\* and the instant which a text denotes
Instant(t) == LET dl == DayOf(t[1], t[2], t[3]) u == t[4] - 60 * t[5]
              IN IF u < 0 THEN <<dl - 1, u + 86400>> ELSE IF u >= 86400 THEN <<dl + 1, u - 86400>> ELSE <<dl, u>>
InRange(dd) == dd > DayOf(0, 1, 1) /\ dd < DayOf(9999, 12, 31)
RoundTrip == InRange(day) => \A s \in Seconds, o \in Offsets : Instant(Text(day, s, o)) = <<day, s>>

\* -1, 0, 1: before, at the same time as, after
Order(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
               ELSE IF a[2] # b[2] THEN (IF a[2] < b[2] THEN -1 ELSE 1) ELSE 0

Emit == InRange(day) => PrintT(ToJson([k |-> "day", day |-> day, date |-> <<y, m, d>>,
                                       t |-> {[s |-> s, text |-> Text(day, s, o)] : s \in Seconds, o \in Offsets}]))
=============================================================================
