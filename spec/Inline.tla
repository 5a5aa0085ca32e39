------------------------------- MODULE Inline -------------------------------
(***************************************************************************)
(* Inline markup: what a text becomes.  InlineStep is the machine: at      *)
(* position i it consumes a construct and emits its rendering; a construct *)
(* that is not complete is literal text.                                   *)
(***************************************************************************)
EXTENDS Text

Entity(c) ==
    CASE c = 38 -> T("&amp;")
      [] c = 60 -> T("&lt;")
      [] c = 62 -> T("&gt;")
      [] c = 34 -> T("&quot;")
      [] c = 39 -> T("&#x27;")
      [] c = 47 -> T("&#x2F;")
      [] OTHER -> <<c>>
Escaped == {38, 60, 62, 34, 39, 47}
Html(s) == IF Elems(s) \cap Escaped = {} THEN s ELSE FoldLeft(LAMBDA a, c : a \o Entity(c), <<>>, s)

BSL == 92
Blank == {32, 9}
(* a backslash is removed, the character after it stays *)
UnStep(a, c) == IF c = BSL /\ ~a.esc THEN [a EXCEPT !.esc = TRUE]
                ELSE [esc |-> FALSE, out |-> Append(a.out, c)]
Unescape(s) == FoldLeft(UnStep, [esc |-> FALSE, out |-> <<>>], s).out

(* the first c that is not escaped, from position i; 0: none *)
RECURSIVE FindU(_, _, _)
FindU(s, i, c) ==
    IF i > Len(s) THEN 0
    ELSE IF s[i] = BSL THEN FindU(s, i + 2, c)
    ELSE IF s[i] = c THEN i ELSE FindU(s, i + 1, c)
(* the first doubled c *)
RECURSIVE FindUU(_, _, _)
FindUU(s, i, c) ==
    LET j == FindU(s, i, c)
    IN IF j = 0 THEN 0
       ELSE IF j < Len(s) /\ s[j + 1] = c THEN j
       ELSE FindUU(s, j + 1, c)
(* the bracket that closes the one opened before position i *)
RECURSIVE CloseBracket(_, _, _)
CloseBracket(s, i, depth) ==
    IF i > Len(s) THEN 0
    ELSE CASE s[i] = BSL -> CloseBracket(s, i + 2, depth)
           [] s[i] = 91 -> CloseBracket(s, i + 1, depth + 1)
           [] s[i] = 93 -> IF depth = 1 THEN i ELSE CloseBracket(s, i + 1, depth - 1)
           [] OTHER -> CloseBracket(s, i + 1, depth)

(* the address after the bracket at k: [ok, from, to] of what is between the
   parentheses; blanks and newlines may come before it *)
Address(s, k) ==
    LET p == IF k = 0 THEN 0 ELSE FindNotIn(s, k + 1, {32, 9, 10, 13})
        q == IF p = 0 \/ p > Len(s) THEN 0 ELSE IF s[p] = 40 THEN FindU(s, p + 1, 41) ELSE 0
    IN [ok |-> q # 0, from |-> p + 1, to |-> q - 1]

Emit(n, o) == [next |-> n, out |-> o]

RECURSIVE Inline(_)

Emphasis(s, i, c) ==
    IF s[i + 1] = c THEN
        LET j == FindUU(s, i + 2, c)
        IN IF j = 0 THEN Emit(i + 2, <<c, c>>)
           ELSE Emit(j + 2, T("<strong>") \o Inline(SubSeq(s, i + 2, j - 1)) \o T("</strong>"))
    ELSE
        LET j == FindU(s, i + 1, c)
        IN IF j = 0 THEN Emit(i + 1, <<c>>)
           ELSE Emit(j + 1, T("<em>") \o Inline(SubSeq(s, i + 1, j - 1)) \o T("</em>"))
Code(s, i) ==
    IF s[i + 1] = 96 THEN
        LET j == FindUU(s, i + 2, 96)
        IN IF j = 0 THEN Emit(i + 2, <<96, 96>>)
           ELSE Emit(j + 2, T("<code>") \o Html(SubSeq(s, i + 2, j - 1)) \o T("</code>"))
    ELSE
        LET j == FindU(s, i + 1, 96)
        IN IF j = 0 THEN Emit(i + 1, <<96>>)
           ELSE Emit(j + 1, T("<code>") \o Html(SubSeq(s, i + 1, j - 1)) \o T("</code>"))
Link(s, i) ==
    IF s[i + 1] = 91 THEN
        LET j == FindUU(s, i + 2, 93)
            u == Unescape(SubSeq(s, i + 2, j - 1))
        IN IF j = 0 THEN Emit(i + 2, <<91, 91>>)
           ELSE Emit(j + 2, T("<a href=\"") \o u \o T("\">") \o u \o T("</a>"))
    ELSE
        \* a link has some text: the first character belongs to it
        LET k == CloseBracket(s, IF s[i + 1] = BSL THEN i + 3 ELSE i + 2, 1)
            a == Address(s, k)
        IN IF ~a.ok THEN Emit(i + 1, <<91>>)
           ELSE Emit(a.to + 2, T("<a href=\"") \o Unescape(SubSeq(s, a.from, a.to)) \o T("\">")
                                 \o Inline(SubSeq(s, i + 1, k - 1)) \o T("</a>"))
Image(s, i) ==
    IF s[i + 1] # 91 THEN Emit(i + 1, <<33>>)
    ELSE LET k == FindU(s, i + 2, 93)
             a == Address(s, k)
         IN IF ~a.ok THEN Emit(i + 2, <<33, 91>>)
            ELSE Emit(a.to + 2, T("<img src=\"") \o Unescape(SubSeq(s, a.from, a.to)) \o T("\" alt=\"")
                                  \o Unescape(SubSeq(s, i + 2, k - 1)) \o T("\">"))
Dash(s, i) ==
    IF s[i + 1] # 45 THEN Emit(i + 1, <<45>>)
    ELSE IF i + 2 <= Len(s) /\ s[i + 2] = 45 THEN Emit(i + 3, T("&mdash;"))
    ELSE Emit(i + 2, T("&ndash;"))
Space(s, i) ==
    IF s[i + 1] # 32 THEN Emit(i + 1, <<32>>)
    ELSE LET e == FindNotIn(s, i, {32})
         IN IF e > Len(s) THEN Emit(e, T("<br />"))
            ELSE IF s[e] \in Newlines THEN Emit(e + 1, T("<br />") \o <<s[e]>>)
            ELSE Emit(e, SubSeq(s, i, e - 1))

InlineStep(s, i) ==
    LET c == s[i]
    IN IF i = Len(s) THEN Emit(i + 1, Entity(c))
       ELSE CASE c = BSL -> Emit(i + 2, Entity(s[i + 1]))
              [] c \in {42, 95} -> Emphasis(s, i, c)
              [] c = 96 -> Code(s, i)
              [] c = 91 -> Link(s, i)
              [] c = 33 -> Image(s, i)
              [] c = 45 -> Dash(s, i)
              [] c = 32 -> Space(s, i)
              [] OTHER -> Emit(i + 1, Entity(c))

MarkupChars == {BSL, 42, 95, 96, 91, 33, 45, 32}
RECURSIVE InlineFrom(_, _, _)
InlineFrom(s, i, out) ==
    IF i > Len(s) THEN out
    ELSE \* text without markup is consumed at once
         LET e == FindIn(s, i, MarkupChars)
             j == IF e > Len(s) THEN e ELSE IF e > i THEN e ELSE 0
         IN IF j # 0 THEN InlineFrom(s, j, out \o Html(SubSeq(s, i, j - 1)))
            ELSE LET r == InlineStep(s, i) IN InlineFrom(s, r.next, out \o r.out)
Inline(s) == InlineFrom(s, 1, <<>>)
=============================================================================
