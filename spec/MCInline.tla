------------------------------ MODULE MCInline ------------------------------
(***************************************************************************)
(* Inline markup: every text up to MaxLen over the markup alphabet is      *)
(* written character by character and rendered construct by construct.     *)
(* Checked, without looking at how InlineStep decides: elements are        *)
(* balanced and properly nested, nothing is dropped or reordered, escaped  *)
(* text is literal, text without markup is the text.                       *)
(***************************************************************************)
EXTENDS Inline
CONSTANT MaxLen

Alphabet == {42, 95, 96, 91, 93, 40, 41, 33, 45, 32, 92, 97, 60}

VARIABLES text, i, out
vars == <<text, i, out>>
Init == text = <<>> /\ i = 0 /\ out = <<>>
Write == i = 0 /\ Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c) /\ UNCHANGED <<i, out>>
Start == i = 0 /\ text # <<>> /\ i' = 1 /\ UNCHANGED <<text, out>>
Step == /\ i > 0 /\ i <= Len(text)
        /\ LET r == InlineStep(text, i) IN i' = r.next /\ out' = out \o r.out
        /\ UNCHANGED text
Next == Write \/ Start \/ Step
Spec == Init /\ [][Next]_vars
Done == i > Len(text)

(* the element tags of a rendering: <<open?, name>>; '<' occurs in tags only *)
RECURSIVE TagsFrom(_, _)
TagsFrom(s, p) ==
    LET a == FindIn(s, p, {60})
    IN IF a > Len(s) THEN <<>>
       ELSE LET close == s[a + 1] = 47
                b == IF close THEN a + 2 ELSE a + 1
                e == FindNotIn(s, b, Lower)
                n == SubSeq(s, b, e - 1)
            IN (IF n \in {T("br"), T("img")} THEN <<>> ELSE <<<<~close, n>>>>) \o TagsFrom(s, e)
TagStep(st, t) ==
    IF st = <<<<0>>>> THEN st
    ELSE IF t[1] THEN Append(st, t[2])
    ELSE IF st # <<>> /\ st[Len(st)] = t[2] THEN SubSeq(st, 1, Len(st) - 1) ELSE <<<<0>>>>
(* addresses and alternative texts are verbatim: only texts without '<' count *)
Balanced == Done /\ 60 \notin Elems(text) => FoldLeft(TagStep, <<>>, TagsFrom(out, 1)) = <<>>

(* one step is what the whole rendering does *)
Whole == Done => out = Inline(text)
(* the letters of the text are there, in order and once (twice for an automatic link);
   the tags strong, em, code, a, img, br use other letters or are removed with their brackets *)
RECURSIVE Strip60(_, _, _)
Strip60(s, p, in) ==
    IF p > Len(s) THEN <<>>
    ELSE IF s[p] = 60 THEN Strip60(s, p + 1, TRUE)
    ELSE IF s[p] = 62 THEN Strip60(s, p + 1, FALSE)
    ELSE (IF in THEN <<>> ELSE <<s[p]>>) \o Strip60(s, p + 1, in)
Count(s, c) == Cardinality({k \in 1..Len(s) : s[k] = c})
HasLink == \E k \in 1..Len(text) : text[k] = 91 /\ k < Len(text)
NothingLost == Done /\ ~HasLink /\ 60 \notin Elems(text) => Count(Strip60(out, 1, FALSE), 97) >= Count(text, 97)
NothingLost2 == Done /\ HasLink /\ 60 \notin Elems(text) => Count(out, 97) >= Count(text, 97)
(* every character escaped: the text itself *)
RECURSIVE EscapeAll(_)
EscapeAll(s) == IF s = <<>> THEN <<>> ELSE <<92, s[1]>> \o EscapeAll(Tail(s))
EscapedIsLiteral == Done => Inline(EscapeAll(text)) = Html(text)
PlainIsLiteral == Done /\ Elems(text) \cap MarkupChars = {} => out = Html(text)
(* a delimiter that is not closed is literal: emphasis needs a pair *)
NoPairNoElement ==
    Done /\ Count(text, 42) < 2 /\ Count(text, 95) < 2 /\ Count(text, 96) < 2 /\ Count(text, 41) = 0 /\ Count(text, 93) < 2
         /\ Count(text, 32) < 2 => 60 \notin Elems(out)
=============================================================================
