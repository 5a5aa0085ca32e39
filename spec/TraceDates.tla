----------------------------- MODULE TraceDates -----------------------------
(* Executions that show date variables, judged by Dates.                    *)
EXTENDS Variables, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: format (a DATE_FORMAT), dates, and observed: shown (the values of
   the formatted variables), warnings (how many warnings), rc *)
Sc(c, d) == [global |-> <<<<NDateFormat, c.format>>>>, local |-> <<<<T("DATE_X"), d>>>>, loop |-> [on |-> FALSE]]
(* a result that does not fit is reported like an invalid date *)
TooLong(c, d) == LET n == Len(FormatDate(d, c.format)) IN n = 0 \/ n >= 1024
Expected(c) ==
    [shown |-> [i \in 1..Len(c.dates) |-> Resolve(Sc(c, c.dates[i]), T("DATE_X_FORMATTED")).v],
     warnings |-> Cardinality({i \in 1..Len(c.dates) : ~IsDate(c.dates[i]) \/ TooLong(c, c.dates[i])})]
Agrees(c, e) == c.rc = 0 /\ c.shown = e.shown /\ c.warnings = e.warnings

VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
