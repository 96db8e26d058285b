------------------------------ MODULE XmlText ------------------------------
(***************************************************************************)
(* P10: texts in attribute values, character by character (code points).    *)
(*                                                                          *)
(* The writer writes an element with attributes, escaping each character.   *)
(* The parser is that of XML 1.0: it ends an attribute at its quote, turns  *)
(* literal white space into spaces (after line end normalisation), expands  *)
(* references, and rejects < and stray &. The property: whatever the texts, *)
(* it sees these attributes, with these texts, and nothing else.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt

CONSTANTS Alphabet, MaxLen, MaxOther
VARIABLES texts,            \* the texts to write, one per attribute
          wi, wj, ch,       \* writer: attribute, character in it; what is written so far
          p, st, q, val, ref, attrs  \* parser: position; state; quote, value and reference being read; attributes read
vars == <<texts, wi, wj, ch, p, st, q, val, ref, attrs>>

AMP == 38  LT == 60  GT == 62  QUOT == 34  APOS == 39  TAB == 9  NL == 10  CR == 13  SP == 32  SEMI == 59  HASH == 35
WS == {TAB, NL, CR, SP}

------------------------------------------------------------------------------
\* The writer (write_xml_attr_escaped)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Esc(c) == CASE c = AMP -> <<AMP, 97, 109, 112, SEMI>>
            [] c = LT -> <<AMP, 108, 116, SEMI>>
            [] c = GT -> <<AMP, 103, 116, SEMI>>
            [] c = QUOT -> <<AMP, 113, 117, 111, 116, SEMI>>
            [] c = APOS -> <<AMP, 97, 112, 111, 115, SEMI>>
            [] c \in {TAB, NL, CR} -> <<AMP, HASH>> \o Dec(c) \o <<SEMI>>
            [] OTHER -> <<c>>

\* each attribute is: space, its number, =, quote, escaped text, quote; then the end of the tag, >
WriteOpen == /\ wi <= Len(texts) /\ wj = 0
             /\ ch' = ch \o <<SP, 48 + wi, 61, QUOT>> /\ wj' = 1
             /\ UNCHANGED <<texts, wi, p, st, q, val, ref, attrs>>
WriteChar == /\ wi <= Len(texts) /\ wj \in 1..Len(texts[wi])
             /\ ch' = ch \o Esc(texts[wi][wj]) /\ wj' = wj + 1
             /\ UNCHANGED <<texts, wi, p, st, q, val, ref, attrs>>
WriteClose == /\ wi <= Len(texts) /\ wj = Len(texts[wi]) + 1
              /\ ch' = ch \o (IF wi = Len(texts) THEN <<QUOT, GT>> ELSE <<QUOT>>)
              /\ wi' = wi + 1 /\ wj' = 0
              /\ UNCHANGED <<texts, p, st, q, val, ref, attrs>>
Written == wi = Len(texts) + 1

------------------------------------------------------------------------------
\* The parser, once everything is written
C == ch[p]
Digit(c) == c \in 48..57
HexDigit(c) == Digit(c) \/ c \in 97..102 \/ c \in 65..70
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RECURSIVE Num(_, _)
Num(s, base) == IF s = <<>> THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1), base) * base + HexVal(s[Len(s)])
Named == {<<97, 109, 112>>, <<108, 116>>, <<103, 116>>, <<113, 117, 111, 116>>, <<97, 112, 111, 115>>}
Expand(r) == CASE r = <<97, 109, 112>> -> AMP [] r = <<108, 116>> -> LT [] r = <<103, 116>> -> GT
               [] r = <<113, 117, 111, 116>> -> QUOT [] r = <<97, 112, 111, 115>> -> APOS
               [] OTHER -> IF r[2] = 120 THEN Num(SubSeq(r, 3, Len(r)), 16) ELSE Num(Tail(r), 10)
IsRef(r) == r \in Named \/ (Len(r) > 1 /\ r[1] = HASH /\ \A k \in 2..Len(r) : Digit(r[k]))
            \/ (Len(r) > 2 /\ r[1] = HASH /\ r[2] = 120 /\ \A k \in 3..Len(r) : HexDigit(r[k]))

More == Written /\ p <= Len(ch) /\ st # "error"
Goto(s) == st' = s /\ p' = p + 1
W == UNCHANGED <<texts, wi, wj, ch, q>>
\* between attributes
Space == More /\ st = "tag" /\ C \in WS /\ Goto("tag") /\ UNCHANGED <<val, ref, attrs>> /\ W
Name == More /\ st = "tag" /\ C \notin WS \cup {GT} /\ Goto("name") /\ UNCHANGED <<val, ref, attrs>> /\ W
EndTag == More /\ st = "tag" /\ C = GT /\ Goto("content") /\ UNCHANGED <<val, ref, attrs>> /\ W
NameChar == More /\ st = "name" /\ C \notin {61, GT, LT, AMP, QUOT, APOS} \cup WS /\ Goto("name") /\ UNCHANGED <<val, ref, attrs>> /\ W
Equals == More /\ st = "name" /\ C = 61 /\ Goto("eq") /\ UNCHANGED <<val, ref, attrs>> /\ W
Quote == More /\ st = "eq" /\ C \in {QUOT, APOS} /\ Goto("value") /\ val' = <<>> /\ q' = C /\ UNCHANGED <<ref, attrs, texts, wi, wj, ch>>
\* in a value
Plain == More /\ st = "value" /\ C \notin {AMP, LT, q} \cup WS
         /\ val' = Append(val, C) /\ Goto("value") /\ UNCHANGED <<ref, attrs>> /\ W
White == /\ More /\ st = "value" /\ C \in WS
         \* CR LF is one line end
         /\ val' = IF C = NL /\ ch[p - 1] = CR THEN val ELSE Append(val, SP)
         /\ Goto("value") /\ UNCHANGED <<ref, attrs>> /\ W
StartRef == More /\ st = "value" /\ C = AMP /\ Goto("ref") /\ ref' = <<>> /\ UNCHANGED <<val, attrs>> /\ W
InRef == More /\ st = "ref" /\ C # SEMI /\ ref' = Append(ref, C) /\ Goto("ref") /\ UNCHANGED <<val, attrs>> /\ W
EndRef == /\ More /\ st = "ref" /\ C = SEMI
          /\ IF IsRef(ref) THEN val' = Append(val, Expand(ref)) /\ Goto("value") ELSE val' = val /\ Goto("error")
          /\ ref' = <<>> /\ UNCHANGED attrs /\ W
EndValue == More /\ st = "value" /\ C = q /\ attrs' = Append(attrs, val) /\ val' = <<>> /\ Goto("tag")
            /\ UNCHANGED ref /\ W
\* not well-formed
Reject == /\ More /\ \/ st = "value" /\ C = LT
                     \/ st = "name" /\ C \in {GT, LT, AMP, QUOT, APOS} \cup WS
                     \/ st = "eq" /\ C \notin {QUOT, APOS}
                     \/ st = "content"
          /\ Goto("error") /\ UNCHANGED <<val, ref, attrs>> /\ W

Texts == UNION {[1..m -> Alphabet] : m \in 0..MaxLen}
Others == UNION {[1..m -> Alphabet] : m \in 0..MaxOther}
Start(ts) == /\ texts = ts /\ wi = 1 /\ wj = 0 /\ ch = <<>>
             /\ p = 1 /\ st = "tag" /\ q = QUOT /\ val = <<>> /\ ref = <<>> /\ attrs = <<>>
Init == \E t \in Texts, o \in Others : Start(<<t, o>>)
ParserNext == Space \/ Name \/ NameChar \/ EndTag \/ Equals \/ Quote \/ Plain \/ White \/ StartRef \/ InRef \/ EndRef \/ EndValue \/ Reject
Next == WriteOpen \/ WriteChar \/ WriteClose \/ ParserNext
Spec == Init /\ [][Next]_vars

NeverRejected == st # "error"
\* the attributes seen so far are those written
Seen == \A k \in 1..Len(attrs) : attrs[k] = texts[k]
Done == Written /\ p > Len(ch)
All == Done => st = "content" /\ attrs = texts
Emit == Done => PrintT(ToJson([t |-> texts]))
=============================================================================
