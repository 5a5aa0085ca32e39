-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* Text inputs: a byte order mark is not part of the text, and the bytes   *)
(* must be well-formed UTF-8 (Unicode 15, table 3-7).                      *)
(***************************************************************************)
EXTENDS Text

(* the state is the sequence of byte ranges that must follow *)
Tail1 == <<<<128, 191>>>>
After(c) ==
    CASE c <= 127 -> <<>>
      [] c \in 194..223 -> Tail1
      [] c = 224 -> <<<<160, 191>>>> \o Tail1
      [] c \in (225..236) \cup {238, 239} -> Tail1 \o Tail1
      [] c = 237 -> <<<<128, 159>>>> \o Tail1
      [] c = 240 -> <<<<144, 191>>>> \o Tail1 \o Tail1
      [] c \in 241..243 -> Tail1 \o Tail1 \o Tail1
      [] c = 244 -> <<<<128, 143>>>> \o Tail1 \o Tail1
      [] OTHER -> <<<<1, 0>>>>           \* nothing can follow
Utf8Step(s, c) ==
    IF s = <<>> THEN After(c)
    ELSE IF s[1][1] <= c /\ c <= s[1][2] THEN Tail(s) ELSE <<<<1, 0>>>>
Utf8Valid(b) == FoldLeft(Utf8Step, <<>>, b) = <<>>

Bom == <<239, 187, 191>>
WithoutBom(b) == IF StartsWith(b, Bom) THEN SubSeq(b, 4, Len(b)) ELSE b

(* reading a text file *)
ReadText(b) ==
    LET t == WithoutBom(b) IN IF Utf8Valid(t) THEN [ok |-> TRUE, text |-> t] ELSE [ok |-> FALSE, text |-> <<>>]
=============================================================================
