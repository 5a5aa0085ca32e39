------------------------------- MODULE Dates -------------------------------
(***************************************************************************)
(* Dates: which texts are dates, the instant a date denotes, and how it is *)
(* formatted.  DateStep is the character machine.                          *)
(***************************************************************************)
EXTENDS Text

(* the shape of a date: D a digit *)
Shape == T("DDDD-DD-DD DD:DD:DD")
(* a date may end after the day, the hours, the minutes or the seconds
   (a separator that is not followed by anything is not a complete field,
   but the text up to 'yyyy-mm-dd' and so on is) *)
CompleteLens == {10, 13, 16, 19}

FieldOK(s, from, len, lo, hi) ==
    LET v == DigitsVal(SubSeq(s, from, from + len - 1)) IN lo <= v /\ v <= hi

(* anything after the seconds is ignored *)
IsDate(s) ==
    LET n == Min2(Len(s), 19)
    IN /\ n \in CompleteLens
       /\ \A i \in 1..n : IF Shape[i] = 68 THEN s[i] \in Digit ELSE s[i] = Shape[i]
       /\ FieldOK(s, 1, 4, 1900, 9999)
       /\ FieldOK(s, 6, 2, 1, 12)
       /\ FieldOK(s, 9, 2, 1, 31)
       /\ (n >= 13 => FieldOK(s, 12, 2, 0, 23))
       /\ (n >= 16 => FieldOK(s, 15, 2, 0, 59))
       /\ (n >= 19 => FieldOK(s, 18, 2, 0, 60))

Fld(s, from, len) == DigitsVal(SubSeq(s, from, from + len - 1))

(* days since 1970-01-01 of a proleptic Gregorian date (y, m, d); d may be
   beyond the end of the month, as in the calendar normalisation of mktime *)
DaysOf(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468

CivilOf(z0) ==
    LET z == z0 + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN [y |-> y, m |-> m, d |-> d]

(* the instant: <<days, seconds of the day>>, normalised (UTC) *)
Instant(s) ==
    LET n == Min2(Len(s), 19)
        days == DaysOf(Fld(s, 1, 4), Fld(s, 6, 2), Fld(s, 9, 2))
        secs == (IF n >= 13 THEN 3600 * Fld(s, 12, 2) ELSE 0)
              + (IF n >= 16 THEN 60 * Fld(s, 15, 2) ELSE 0)
              + (IF n >= 19 THEN Fld(s, 18, 2) ELSE 0)
    IN IF secs >= 86400 THEN <<days + 1, secs - 86400>> ELSE <<days, secs>>

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

WeekDay(days) == (days + 4) % 7           \* 0 is Sunday
YearDay(days) == LET c == CivilOf(days) IN days - DaysOf(c.y, 1, 1)   \* 0 based

DayNames == <<"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday">>
MonthNames == <<"January", "February", "March", "April", "May", "June", "July",
                "August", "September", "October", "November", "December">>

(* one conversion of the format (C locale) *)
Conversion(c, t) ==
    LET d == CivilOf(t[1])
        h == t[2] \div 3600
        mi == (t[2] \div 60) % 60
        se == t[2] % 60
    IN CASE c = 89 (*Y*) -> NatText(d.y)
         [] c = 109 (*m*) -> Pad2(d.m)
         [] c = 100 (*d*) -> Pad2(d.d)
         [] c = 72 (*H*) -> Pad2(h)
         [] c = 77 (*M*) -> Pad2(mi)
         [] c = 83 (*S*) -> Pad2(se)
         [] c = 121 (*y*) -> Pad2(d.y % 100)
         [] c = 106 (*j*) -> LET j == YearDay(t[1]) + 1
                             IN <<48 + j \div 100>> \o Pad2(j % 100)
         [] c = 97 (*a*) -> T(SubSeq(DayNames[WeekDay(t[1]) + 1], 1, 3))
         [] c = 65 (*A*) -> T(DayNames[WeekDay(t[1]) + 1])
         [] c = 98 (*b*) -> T(SubSeq(MonthNames[d.m], 1, 3))
         [] c = 66 (*B*) -> T(MonthNames[d.m])
         [] c = 70 (*F*) -> NatText(d.y) \o <<45>> \o Pad2(d.m) \o <<45>> \o Pad2(d.d)
         [] c = 84 (*T*) -> Pad2(h) \o <<58>> \o Pad2(mi) \o <<58>> \o Pad2(se)
         [] c = 73 (*I*) -> Pad2(((h + 11) % 12) + 1)
         [] c = 112 (*p*) -> T(IF h < 12 THEN "AM" ELSE "PM")
         [] c = 37 (*%*) -> <<37>>
KnownConversions == {89, 109, 100, 72, 77, 83, 121, 106, 97, 65, 98, 66, 70, 84, 73, 112, 37}

FormatStep(t, a, c) ==
    IF a.pct THEN [pct |-> FALSE, out |-> a.out \o Conversion(c, t)]
    ELSE IF c = 37 THEN [a EXCEPT !.pct = TRUE]
    ELSE [a EXCEPT !.out = Append(@, c)]
FormatDate(s, format) ==
    LET t == TLCEval(Instant(s))
    IN FoldLeft(LAMBDA a, c : FormatStep(t, a, c), [pct |-> FALSE, out |-> <<>>], format).out
=============================================================================
