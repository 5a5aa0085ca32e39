------------------------------ MODULE Toctree ------------------------------
(***************************************************************************)
(* The table of contents of a sequence of headers [level, slug, text].     *)
(* TocStep is the machine: it closes and opens lists to reach the level of *)
(* a header and lists it.                                                  *)
(***************************************************************************)
EXTENDS Text

Pad(n) == [i \in 1..n |-> 32]
RECURSIVE Times(_, _)
Times(n, x) == IF n <= 0 THEN <<>> ELSE x \o Times(n - 1, x)

Shallowest(hs) == CHOOSE l \in {hs[i].level : i \in 1..Len(hs)} : \A i \in 1..Len(hs) : l <= hs[i].level
Listed(hs, depth) ==
    LET low == Shallowest(hs)
    IN SelectSeq(hs, LAMBDA h : depth < 0 \/ h.level - low < depth)

(* at: the level of the list that is open, d: its distance from the first *)
RECURSIVE CloseTo(_, _, _)
CloseTo(a, level, endl) ==
    IF a.at <= level THEN a
    ELSE CloseTo([a EXCEPT !.at = @ - 1, !.d = @ - 1, !.out = @ \o Pad(4 * (a.d - 1)) \o T("</ul>") \o endl], level, endl)
RECURSIVE OpenTo(_, _, _)
OpenTo(a, level, endl) ==
    IF a.at >= level THEN a
    ELSE OpenTo([a EXCEPT !.at = @ + 1, !.d = @ + 1, !.out = @ \o Pad(4 * a.d) \o T("<ul>") \o endl], level, endl)
TocStep(a, h, endl) ==
    LET b == OpenTo(CloseTo(a, h.level, endl), h.level, endl)
    IN [b EXCEPT !.out = @ \o Pad(4 * b.d) \o T("<li><a href=\"#") \o h.slug \o T("\">") \o h.text \o T("</a></li>") \o endl]
Toc(hs, depth, endl) ==
    IF hs = <<>> \/ depth = 0 THEN [ok |-> FALSE, html |-> <<>>]
    ELSE LET low == Shallowest(hs)
             a == FoldLeft(LAMBDA x, h : TocStep(x, h, endl), [at |-> low, d |-> 1, out |-> T("<ul>") \o endl], Listed(hs, depth))
         IN [ok |-> TRUE, html |-> CloseTo(a, low - 1, endl).out]
=============================================================================
