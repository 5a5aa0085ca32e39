------------------------------ MODULE MCLoader ------------------------------
(***************************************************************************)
(* The listing machine: sources are read one after the other, then the     *)
(* pages of the listing are visited one after the other.  Checked: what    *)
(* the property says about all pages together and about each page, stated  *)
(* independently of how Loader computes a selection.  Every visited page   *)
(* is emitted, to be replayed on the real program.                         *)
(***************************************************************************)
EXTENDS Loader, Json
CONSTANTS MaxSources, Emit

X == T("x")
DatePool == {T("2001-01-01"), T("2001-01-01 00:00:00"), T("1950-12-31 23:59:60"), T("2099-02-29")}
TagPool == {<<>>, T("x"), T("xy x"), T("xy")}

(* settings of a listing: everything but the page *)
Flags == {<<>>, <<<<NFReverse, T("1")>>>>, <<<<NFSort, T("yes")>>>>, <<<<NFSort, T("on")>>, <<NFReverse, T("TRUE")>>>>}
TagFilter == {<<>>, <<<<NFTag, X>>>>}
PerPages == {<<>>, <<<<NFPerPage, T("1")>>>>, <<<<NFPerPage, T("2")>>>>, <<<<NFPerPage, T("3")>>>>, <<<<NFPerPage, T("0")>>>>}

VARIABLES ss,      \* the sources read so far
          cfg,     \* the settings
          page,    \* 0: reading, else the page being visited
          seen,    \* concatenation of the selections of the visited pages
          cur      \* the selection of the page being visited
vars == <<ss, cfg, page, seen, cur>>

Src(i, d, t) == <<<<NFilename, <<96 + i>>>>>> \o (IF d = <<>> THEN <<>> ELSE <<<<NDate, d>>>>)
                                              \o (IF t = <<>> THEN <<>> ELSE <<<<NTags, t>>>>)
Init == /\ ss = <<>> /\ page = 0 /\ seen = <<>> /\ cur = <<>>
        /\ cfg \in {f \o t \o p : f \in Flags, t \in TagFilter, p \in PerPages}
Read == /\ page = 0 /\ Len(ss) < MaxSources
        /\ \E d \in (IF Bool(cfg, NFSort) THEN DatePool ELSE {<<>>}), t \in TagPool :
             ss' = Append(ss, Src(Len(ss) + 1, d, t))
        /\ UNCHANGED <<cfg, page, seen, cur>>
SettingsAt(p) == Put(cfg, NFPage, IntText(p))
Visit == /\ page <= Len(ss) + 1
         /\ page' = page + 1
         /\ cur' = Select(SettingsAt(page + 1), ss)
         /\ seen' = seen \o cur'.sel
         /\ (Emit => PrintT("CASE " \o ToJson([g |-> SettingsAt(page + 1), ss |-> ss])))
         /\ UNCHANGED <<ss, cfg>>
Next == Read \/ Visit
Spec == Init /\ [][Next]_vars

Done == page = Len(ss) + 2
Selected == {s \in Elems(ss) : ~Defined(cfg, NFTag) \/ (Defined(s, NTags) /\ X \in Elems(Words(Value(s, NTags))))}
Pos(s) == CHOOSE i \in 1..Len(ss) : ss[i] = s
Precedes(a, b) ==
    LET ta == Instant(Value(a, NDate))
        tb == Instant(Value(b, NDate))
        rev == Bool(cfg, NFReverse)
    IN IF Bool(cfg, NFSort)
       THEN \/ (IF rev THEN Before(ta, tb) ELSE Before(tb, ta))
            \/ (ta = tb /\ Pos(a) < Pos(b))
       ELSE IF rev THEN Pos(a) > Pos(b) ELSE Pos(a) < Pos(b)
(* all pages together: every selected source exactly once, in order *)
AllPages ==
    (Done /\ PerPage(cfg) > 0) =>
        /\ Len(seen) = Cardinality(Selected) /\ Elems(seen) = Selected
        /\ \A i \in 1..(Len(seen) - 1) : Precedes(seen[i], seen[i + 1])
(* the numbers of a page describe exactly that page *)
Num(n) == StrToL(Value(cur.global, n))
PageNumbers ==
    page > 0 =>
        LET total == Cardinality(Selected)
            per == PerPage(cfg)
            g == cur.global
        IN /\ Num(NCurrent) = page
           /\ Len(cur.sel) <= per
           /\ Defined(g, NPrevious) <=> page > 1
           /\ Defined(g, NPrevious) => Num(NPrevious) = page - 1
           /\ Defined(g, NNext) <=> (per > 0 /\ page * per < total)
           /\ Defined(g, NNext) => Num(NNext) = page + 1
           /\ Defined(g, NLast) <=> (per > 0 /\ total > 0)
           /\ Defined(g, NLast) => /\ (Num(NLast) - 1) * per < total
                                   /\ total <= Num(NLast) * per
           /\ Defined(g, NFirst) <=> (cur.sel # <<>>)
           /\ cur.sel # <<>> => /\ Value(g, NFilenameFirst) = Value(cur.sel[1], NFilename)
                                /\ Value(g, NFilenameLast) = Value(cur.sel[Len(cur.sel)], NFilename)
=============================================================================
