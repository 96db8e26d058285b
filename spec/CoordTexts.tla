----------------------------- MODULE CoordTexts -----------------------------
(* Starts of texts for Coord: from nothing, and long ones near the interesting points. *)
EXTENDS Coord
Signs == {<<"", FALSE>>, <<"-", TRUE>>, <<"+", FALSE>>}
ShortStems == {Stem(s[1], s[2], 0, 0, 0, -1) : s \in Signs}
LongStems == {Stem(s[1] \o x[1], s[2], x[2], x[3], 0, x[4]) : s \in Signs \ {<<"+", FALSE>>},
                x \in {<<"0.000000", 0, 0, 6>>, <<"0.999999", 0, 9999990, 6>>, <<"1.234567", 1, 2345670, 6>>, <<"90.000000", 90, 0, 6>>,
                       <<"89.999999", 89, 9999990, 6>>, <<"179.999999", 179, 9999990, 6>>, <<"180.000000", 180, 0, 6>>,
                       <<"214.748364", 214, 7483640, 6>>, <<"214.74836", 214, 7483600, 5>>, <<"214", 214, 0, -1>>, <<"21", 21, 0, -1>>,
                       <<"51.477811", 51, 4778110, 6>>, <<"0000007.1", 7, 1000000, 1>>, <<"123.456789", 123, 4567890, 6>>}}
AllDigits == 0..9
=============================================================================
