------------------------------ MODULE MCToctree ------------------------------
(***************************************************************************)
(* Tables of contents: headers arrive one after the other.  Checked: list  *)
(* elements are balanced, one entry per listed header in order, nested as  *)
(* deep as its level says.                                                 *)
(***************************************************************************)
EXTENDS Toctree
CONSTANTS MaxHeaders, MaxLevel
VARIABLES hs, depth
vars == <<hs, depth>>
Init == hs = <<>> /\ depth \in -1..(MaxLevel + 1)
Next == /\ Len(hs) < MaxHeaders
        /\ \E l \in 1..MaxLevel : hs' = Append(hs, [level |-> l, slug |-> <<96 + Len(hs) + 1>>, text |-> <<65 + Len(hs)>>])
        /\ UNCHANGED depth
Spec == Init /\ [][Next]_vars

(* reading the result back, line by line *)
Ln == Split(Toc(hs, depth, <<NL>>).html, NL)
Indent(l) == FindNotIn(l, 1, {32}) - 1
Body(l) == SubSeq(l, Indent(l) + 1, Len(l))
ReadStep(a, l) ==
    IF l = <<>> THEN a
    ELSE IF Body(l) = T("<ul>") THEN [a EXCEPT !.open = @ + 1, !.ok = @ /\ Indent(l) = 4 * a.open]
    ELSE IF Body(l) = T("</ul>") THEN [a EXCEPT !.open = @ - 1, !.ok = @ /\ a.open > 0 /\ Indent(l) = 4 * (a.open - 1)]
    ELSE [a EXCEPT !.seen = Append(@, <<a.open, Body(l)>>), !.ok = @ /\ a.open > 0 /\ Indent(l) = 4 * a.open]
Read == FoldLeft(ReadStep, [open |-> 0, ok |-> TRUE, seen |-> <<>>], Ln)
None == hs = <<>> \/ depth = 0
Exists == Toc(hs, depth, <<NL>>).ok = ~None
Balanced == ~None => Read.open = 0 /\ Read.ok
Entries ==
    ~None =>
      LET low == Shallowest(hs)
          want == {i \in 1..Len(hs) : depth < 0 \/ hs[i].level - low < depth}
          nth(k) == CHOOSE i \in want : Cardinality({j \in want : j < i}) = k - 1
      IN /\ Len(Read.seen) = Cardinality(want)
         /\ \A k \in 1..Len(Read.seen) :
              Read.seen[k] = <<hs[nth(k)].level - low + 1,
                               T("<li><a href=\"#") \o hs[nth(k)].slug \o T("\">") \o hs[nth(k)].text \o T("</a></li>")>>
=============================================================================
