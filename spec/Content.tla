------------------------------ MODULE Content ------------------------------
(***************************************************************************)
(* The content of a source: its lines form blocks, each block is rendered  *)
(* as what its shape says.  BlockStep is the machine: it consumes the      *)
(* block that starts at line i.                                            *)
(***************************************************************************)
EXTENDS Inline

(* lines: [t: text, e: line ending].  LF, CR, CR LF and LF CR end a line *)
LineStep(a, c) ==
    IF c \in Newlines THEN
        IF a.pend # 0 /\ a.pend # c
        THEN [a EXCEPT !.pend = 0, !.ls[Len(a.ls)].e = <<a.pend, c>>]
        ELSE [ls |-> Append(a.ls, [t |-> a.cur, e |-> <<c>>]), cur |-> <<>>, pend |-> c]
    ELSE [a EXCEPT !.cur = Append(@, c), !.pend = 0]
Lines(s) ==
    LET a == FoldLeft(LineStep, [ls |-> <<>>, cur |-> <<>>, pend |-> 0], s)
    IN IF a.cur = <<>> THEN a.ls ELSE Append(a.ls, [t |-> a.cur, e |-> <<>>])
Ending(ls) == IF ls = <<>> \/ ls[1].e = <<>> THEN <<NL>> ELSE ls[1].e

BlankLine(ls, i) == i > Len(ls) \/ ls[i].t = <<>>
RECURSIVE BlockEnd(_, _)
BlockEnd(ls, i) == IF BlankLine(ls, i + 1) THEN i ELSE BlockEnd(ls, i + 1)
(* the lines i..j as they are written, without the last line ending *)
Raw(ls, i, j) == FoldLeft(LAMBDA a, k : a \o ls[k].t \o (IF k < j THEN ls[k].e ELSE <<>>), <<>>, [k \in 1..(j - i + 1) |-> i + k - 1])
Texts(ls, i, j) == [k \in 1..(j - i + 1) |-> ls[i + k - 1].t]

SlugChar(c) == IF c \in Lower \cup Digit THEN c ELSE IF c \in Upper THEN c + 32 ELSE 45
Slug(s) == MapText(SlugChar, s)

(* description: the lines of a paragraph, stripped, on one line *)
DescStep(a, c) ==
    IF c \in Newlines THEN (IF a.nl THEN a ELSE [out |-> a.out \o Strip(a.cur) \o <<SPC>>, cur |-> <<>>, nl |-> TRUE])
    ELSE [a EXCEPT !.cur = Append(@, c), !.nl = FALSE]
Description(s) ==
    LET a == FoldLeft(DescStep, [out |-> <<>>, cur |-> <<>>, nl |-> FALSE], s)
    IN Html(Strip(a.out \o (IF a.nl THEN <<>> ELSE Strip(a.cur))))

(* shapes of a line *)
Run(t, c) == FindNotIn(t, 1, {c}) - 1              \* how many c it starts with
IsSeparator(ls, i) == Len(ls[i].t) >= 2 /\ Run(ls[i].t, 46) = Len(ls[i].t) /\ BlankLine(ls, i + 1)
IsHeader(t) == LET n == Run(t, 35) IN n > 0 /\ n < Len(t) /\ t[n + 1] \in Blank
Marks == {42, 43, 45}
IsRule(t) == t[1] \in Marks /\ Len(t) >= 3 /\ Run(t, t[1]) = Len(t)
IsUnordered(t) ==
    /\ t[1] \in Marks
    /\ ~(Len(t) >= 2 /\ t[2] = t[1])
    /\ (t[1] = 42 => Len(t) >= 2 /\ t[2] \in Blank)
UPrefix(t) == SubSeq(t, 1, FindNotIn(t, 2, Blank) - 1)
Digits(t) == FindNotIn(t, 1, Digit) - 1
IsOrdered(t) == Digits(t) > 0 /\ Digits(t) < Len(t) /\ t[Digits(t) + 1] = 46
OPrefix(t) == FindNotIn(t, Digits(t) + 2, Blank) - 1
(* an item of an ordered list whose texts start after n characters *)
IsOItem(t, n) ==
    IsOrdered(t) /\ LET d == Digits(t) + 1
                        e == Min2(FindNotIn(t, d + 1, Blank) - 1, Max2(n, d))
                    IN e = n /\ Len(t) > n

(* the items of a list: lines that start an item, or continue one *)
ItemStep(a, t, n, starts) ==
    IF starts THEN [a EXCEPT !.items = Append(@, <<SubSeq(t, n + 1, Len(t))>>)]
    ELSE IF a.items # <<>> /\ StartsWith(t, [k \in 1..n |-> 32])
    THEN [a EXCEPT !.items[Len(a.items)] = Append(@, SubSeq(t, n + 1, Len(t)))]
    ELSE [a EXCEPT !.ok = FALSE]
NoItems == [ok |-> TRUE, items |-> <<>>]
UItems(ts) ==
    LET p == UPrefix(ts[1])
    IN FoldLeft(LAMBDA a, t : ItemStep(a, t, Len(p), StartsWith(t, p)), NoItems, ts)
OItems(ts) ==
    LET n == OPrefix(ts[1])
    IN FoldLeft(LAMBDA a, t : ItemStep(a, t, n, IsOItem(t, n)), NoItems, ts)

Prefixed(ts, p) == \A k \in 1..Len(ts) : StartsWith(ts[k], p)
Unprefixed(ts, p) == [k \in 1..Len(ts) |-> SubSeq(ts[k], Len(p) + 1, Len(ts[k]))]

Tag(n, body) == T("<") \o n \o T(">") \o body \o T("</") \o n \o T(">")
ListHtml(n, items, endl) ==
    T("<") \o n \o T(">") \o endl
    \o Concat([k \in 1..Len(items) |-> Tag(T("li"), Inline(Join(items[k], endl))) \o endl])
    \o T("</") \o n \o T(">") \o endl

RECURSIVE Blocks(_, _, _, _)

(* a: [i, out, sep, fh, desc, heads]; sep: length of what is rendered before
   the (last) excerpt separator, -1: none; fh, desc: [ok, v] *)
Paragraph(a, ls, j, endl, top) ==
    LET t == Raw(ls, a.i, j)
    IN [a EXCEPT !.i = j + 1, !.out = @ \o Tag(T("p"), Inline(t)) \o endl,
                 !.desc = IF top /\ ~@.ok THEN [ok |-> TRUE, v |-> Description(t)] ELSE @]
Header(a, t, endl, top) ==
    LET n == Run(t, 35)
        title == SubSeq(t, FindNotIn(t, n + 1, Blank), Len(t))
        slug == Slug(title)
        html == Inline(title)
        h == T("h") \o NatText(n)
    IN [a EXCEPT !.i = @ + 1,
                 !.out = @ \o T("<") \o h \o T(" id=\"") \o slug \o T("\">") \o html \o T("</") \o h \o T(">") \o endl,
                 !.fh = IF top /\ ~@.ok THEN [ok |-> TRUE, v |-> Html(title)] ELSE @,
                 !.heads = IF top THEN Append(@, [level |-> n, slug |-> slug, text |-> html]) ELSE @]

BlockStep(a, ls, endl, top, dev) ==
    LET i == a.i
        t == ls[i].t
        j == BlockEnd(ls, i)
        ts == Texts(ls, i, j)
        para == Paragraph(a, ls, j, endl, top)
        to(html) == [a EXCEPT !.i = j + 1, !.out = @ \o html \o endl]
    IN CASE t = <<>> -> [a EXCEPT !.i = @ + 1]
         [] t # <<>> /\ top /\ IsSeparator(ls, i) ->
              \* (at the end of the content it separates nothing)
              [a EXCEPT !.i = @ + 1, !.sep = IF i < Len(ls) THEN Len(a.out) ELSE @]
         [] IsHeader(t) -> Header(a, t, endl, top)
         \* named deviation: a line of '#' only takes the next line into its block, even an empty one
         [] dev /\ t # <<>> /\ Run(t, 35) = Len(t) /\ i < Len(ls) ->
               Paragraph(a, ls, IF BlankLine(ls, i + 2) THEN i + 1 ELSE BlockEnd(ls, i + 2), endl, top)
         [] t # <<>> /\ IsRule(t) -> [a EXCEPT !.i = @ + 1, !.out = @ \o T("<hr />") \o endl]
         [] t # <<>> /\ t[1] = 60 -> to(Raw(ls, i, j))
         [] t # <<>> /\ t[1] = 62 ->
               LET p == SubSeq(t, 1, FindNotIn(t, 2, Blank) - 1)
               IN IF Prefixed(ts, p)
                  THEN to(Tag(T("blockquote"),
                              Blocks(Concat([k \in 1..Len(ts) |-> SubSeq(ts[k], Len(p) + 1, Len(ts[k])) \o endl]), endl, FALSE, dev).out))
                  ELSE para
         [] t # <<>> /\ t[1] \in Blank ->
               LET p == SubSeq(t, 1, FindNotIn(t, 1, Blank) - 1)
               IN IF Prefixed(ts, p)
                  THEN to(T("<pre><code>") \o Join([k \in 1..Len(ts) |-> Html(SubSeq(ts[k], Len(p) + 1, Len(ts[k])))], endl) \o T("</code></pre>"))
                  ELSE para
         [] t # <<>> /\ ~IsRule(t) /\ IsUnordered(t) ->
               LET u == UItems(ts)
               IN IF u.ok THEN [a EXCEPT !.i = j + 1, !.out = @ \o ListHtml(T("ul"), u.items, endl)] ELSE para
         [] t # <<>> /\ IsOrdered(t) ->
               LET o == OItems(ts)
               IN IF o.ok THEN [a EXCEPT !.i = j + 1, !.out = @ \o ListHtml(T("ol"), o.items, endl)] ELSE para
         [] OTHER -> para

RECURSIVE BlocksFrom(_, _, _, _, _)
BlocksFrom(a, ls, endl, top, dev) ==
    IF a.i > Len(ls) THEN a ELSE BlocksFrom(BlockStep(a, ls, endl, top, dev), ls, endl, top, dev)

Unset == [ok |-> FALSE, v |-> <<>>]
BlocksInit == [i |-> 1, out |-> <<>>, sep |-> -1, fh |-> Unset, desc |-> Unset, heads |-> <<>>]
Blocks(s, endl, top, dev) == BlocksFrom(BlocksInit, Lines(s), endl, top, dev)
Content(s, dev) == Blocks(s, Ending(Lines(s)), TRUE, dev)
=============================================================================
