------------------------------- MODULE Kind -------------------------------
(* P23: the names of the kinds of objects, and which texts mean which kind. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Kinds == 0..2
Short == [k \in Kinds |-> <<"n", "w", "r">>[k + 1]]
Long == [k \in Kinds |-> <<"node", "way", "relation">>[k + 1]]
Others == {"", "x", "N", "W", "R", "nodes", "Node", "WAY", "relations", " node", "way ", "no", "a", "area", "0", "nw", "nwr"}
\* what a text means, as a string and as a character; -1 for nothing
MeansStr(s) == IF \E k \in Kinds : s \in {Short[k], Long[k]} THEN CHOOSE k \in Kinds : s \in {Short[k], Long[k]} ELSE -1
MeansChar(s) == IF \E k \in Kinds : s = Short[k] THEN CHOOSE k \in Kinds : s = Short[k] ELSE -1
Texts == {Short[k] : k \in Kinds} \cup {Long[k] : k \in Kinds} \cup Others
\* nodes come before ways, ways before relations
Less(a, b) == a < b
VARIABLE text
Init == text \in Texts
Next == UNCHANGED text
Spec == Init /\ [][Next]_text
Inverse == /\ \A k \in Kinds : MeansStr(Short[k]) = k /\ MeansStr(Long[k]) = k /\ MeansChar(Short[k]) = k
           /\ MeansStr(text) # -1 => text \in {Short[MeansStr(text)], Long[MeansStr(text)]}
           /\ \A a, b \in Kinds : a # b => {Short[a], Long[a]} \cap {Short[b], Long[b]} = {}
Emit == PrintT(ToJson([text |-> text, kind |-> MeansStr(text), short |-> \E k \in Kinds : text = Short[k],
                       long |-> \E k \in Kinds : text = Long[k], str |-> MeansStr(text) # -1, char |-> MeansChar(text) # -1]))
=============================================================================
