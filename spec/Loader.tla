------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Which sources a run renders, in which order, and what it exports about  *)
(* the selection.  Sources are association sequences (their variables).    *)
(* LoadStep is the machine: sources are read one by one (date checks),     *)
(* then ordered, filtered and paged.                                       *)
(***************************************************************************)
EXTENDS Text, Dates

NTags == T("TAGS")
NDate == T("DATE")
NFilename == T("FILENAME")
NFSort == T("FILTER_SORT")
NFReverse == T("FILTER_REVERSE")
NFTag == T("FILTER_TAG")
NFPage == T("FILTER_PAGE")
NFPerPage == T("FILTER_PER_PAGE")
NDateFirst == T("DATE_FIRST")
NDateLast == T("DATE_LAST")
NFilenameFirst == T("FILENAME_FIRST")
NFilenameLast == T("FILENAME_LAST")
NCurrent == T("CURRENT_PAGE")
NPrevious == T("PREVIOUS_PAGE")
NNext == T("NEXT_PAGE")
NFirst == T("FIRST_PAGE")
NLast == T("LAST_PAGE")

Bool(g, n) == Defined(g, n) /\ ToBool(Value(g, n))

DatesOK(g, ss) ==
    LET dated == {i \in 1..Len(ss) : Defined(ss[i], NDate)}
    IN /\ dated = {} \/ dated = 1..Len(ss)
       /\ Bool(g, NFSort) => \A i \in 1..Len(ss) : i \in dated /\ IsDate(Value(ss[i], NDate))

(* stable order by date: newest first, or oldest first *)
RECURSIVE InsertBy(_, _, _)
InsertBy(ss, x, newest) ==
    IF ss = <<>> THEN <<x>>
    ELSE LET l == ss[Len(ss)]
             tx == Instant(Value(x, NDate))
             tl == Instant(Value(l, NDate))
         IN IF (IF newest THEN Before(tl, tx) ELSE Before(tx, tl))
            THEN Append(InsertBy(SubSeq(ss, 1, Len(ss) - 1), x, newest), l)
            ELSE Append(ss, x)
SortBy(ss, newest) == FoldLeft(LAMBDA a, x : InsertBy(a, x, newest), <<>>, ss)

Ordered(g, ss) ==
    IF Bool(g, NFSort) THEN SortBy(ss, ~Bool(g, NFReverse))
    ELSE IF Bool(g, NFReverse) THEN Reverse(ss)
    ELSE ss

HasTag(s, tag) == Defined(s, NTags) /\ tag \in Elems(Words(Value(s, NTags)))
Tagged(g, ss) ==
    IF Defined(g, NFTag)
    THEN SelectSeq(ss, LAMBDA s : HasTag(s, Value(g, NFTag)))
    ELSE ss

Paged(g) == Defined(g, NFPage)
Page(g) == LET p == StrToL(Value(g, NFPage)) IN IF p <= 0 THEN 1 ELSE p
PerPage(g) ==
    IF Defined(g, NFPerPage)
    THEN LET p == StrToL(Value(g, NFPerPage)) IN IF p < 0 THEN 0 ELSE p
    ELSE 10
OnPage(ss, page, per) ==
    IF per = 0 THEN <<>>
    ELSE LET first == IF page - 1 > Len(ss) \div per THEN Len(ss) + 1 ELSE (page - 1) * per + 1
         IN SubSeq(ss, first, IF per > Len(ss) THEN Len(ss) ELSE Min2(Len(ss), first + per - 1))
LastPage(n, per) == IF per = 0 THEN 0 ELSE (n \div per) + (IF n % per = 0 THEN 0 ELSE 1)

PutIf(c, g, n, v) == IF c THEN Put(g, n, v) ELSE g
Export(g, sel, total) ==
    LET n == Len(sel)
        a == PutIf(n > 0 /\ Defined(sel[1], NDate), g, NDateFirst, Value(sel[1], NDate))
        b == PutIf(n > 0 /\ Defined(sel[1], NFilename), a, NFilenameFirst, Value(sel[1], NFilename))
        c == PutIf(n > 0 /\ Defined(sel[n], NDate), b, NDateLast, Value(sel[n], NDate))
        d == PutIf(n > 0 /\ Defined(sel[n], NFilename), c, NFilenameLast, Value(sel[n], NFilename))
        page == Page(g)
        last == LastPage(total, PerPage(g))
        e == Put(d, NCurrent, IntText(page))
        f == PutIf(page > 1, e, NPrevious, IntText(page - 1))
        h == PutIf(page < last, f, NNext, IntText(page + 1))
        i == PutIf(n > 0, h, NFirst, T("1"))
        j == PutIf(last > 0, i, NLast, IntText(last))
    IN IF Paged(g) THEN j ELSE d

(* the whole selection *)
Select(g, ss) ==
    IF ~DatesOK(g, ss) THEN [ok |-> FALSE, sel |-> <<>>, global |-> g]
    ELSE LET all == Tagged(g, Ordered(g, ss))
             sel == IF Paged(g) THEN OnPage(all, Page(g), PerPage(g)) ELSE all
         IN [ok |-> TRUE, sel |-> sel, global |-> Export(g, sel, Len(all))]
=============================================================================
