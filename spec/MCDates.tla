------------------------------ MODULE MCDates ------------------------------
(***************************************************************************)
(* The calendar, day by day: a walk over all days from FirstYear to        *)
(* LastYear by the Gregorian rules (months, leap years), stated without    *)
(* Dates.  Checked: the instant of every written date is the number of     *)
(* days walked, CivilOf inverts it, the week day advances by one, order of *)
(* texts is order of instants, and the calendar machine and IsDate agree.  *)
(***************************************************************************)
EXTENDS Dates
CONSTANTS FirstYear, LastYear

VARIABLES y, m, d, n, w
vars == <<y, m, d, n, w>>
Leap(k) == (k % 4 = 0 /\ k % 100 # 0) \/ k % 400 = 0
MonthDays(k, j) == CASE j \in {4, 6, 9, 11} -> 30
                     [] j = 2 -> IF Leap(k) THEN 29 ELSE 28
                     [] OTHER -> 31
Written(a, b, c) == Pad4(a) \o <<45>> \o Pad2(b) \o <<45>> \o Pad2(c)
(* 1970-01-01 was a Thursday *)
Init == \/ /\ FirstYear = 1970 /\ y = 1970 /\ m = 1 /\ d = 1 /\ n = 0 /\ w = 4
        \/ /\ FirstYear # 1970 /\ y = FirstYear /\ m = 1 /\ d = 1
           /\ n = Instant(Written(FirstYear, 1, 1))[1] /\ w = WeekDay(n)
Next == /\ y <= LastYear
        /\ n' = n + 1 /\ w' = (w + 1) % 7
        /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y>>
           ELSE /\ d' = 1
                /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_vars

Today == Written(y, m, d)
Valid == IsDate(Today)
Counts == Instant(Today) = <<n, 0>>
Inverts == CivilOf(n) = [y |-> y, m |-> m, d |-> d]
Week == WeekDay(n) = w
(* a day beyond the end of the month is that many days later *)
Beyond == d = MonthDays(y, m) /\ d < 31 => Instant(Written(y, m, 31)) = <<n + 31 - d, 0>>
(* within a day *)
Later == Before(Instant(Today), Instant(Today \o T(" 00:00:01"))) /\ Instant(Today \o T(" 23:59:60")) = <<n + 1, 0>>
Named == FormatDate(Today, T("%Y-%m-%d %H")) = Today \o T(" 00")
=============================================================================
