----------------------------- MODULE Variables -----------------------------
(***************************************************************************)
(* How a variable reference resolves in a scope                            *)
(*   [global, local : association sequences, loop : current loop]          *)
(***************************************************************************)
EXTENDS Text, Dates

No == [ok |-> FALSE, v |-> <<>>]
Yes(v) == [ok |-> TRUE, v |-> v]

(* local value, else global value, else nothing *)
Plain(sc, n) ==
    IF Defined(sc.local, n) THEN Yes(Value(sc.local, n))
    ELSE IF Defined(sc.global, n) THEN Yes(Value(sc.global, n))
    ELSE No

NItem == T("FOREACH_ITEM")
NValue == T("FOREACH_VALUE")
NDateFormat == T("DATE_FORMAT")
SFormatted == T("_FORMATTED")
PDate == T("DATE_")

ItemKey(c) == IF c \in Lower THEN c - 32 ELSE IF c \in Upper \cup Digit THEN c ELSE 95
(* the name of the variable associated with an item of a list *)
ItemVariable(list, item) == MapText(ItemKey, list \o <<95, 95>> \o item)

(* the reference without suffixes *)
Base(sc, n) ==
    CASE n = NItem -> IF sc.loop.on THEN Yes(sc.loop.items[sc.loop.i])
                      ELSE Plain(sc, n)
      [] n = NValue -> IF sc.loop.on
                       THEN Plain(sc, ItemVariable(sc.loop.name, sc.loop.items[sc.loop.i]))
                       ELSE Plain(sc, n)
      [] OTHER -> Plain(sc, n)

(* name = stem, optionally _FORMATTED, optionally _digits *)
RECURSIVE DigitsFrom(_, _)
DigitsFrom(n, i) == IF i > 1 /\ n[i] \in Digit THEN DigitsFrom(n, i - 1) ELSE i
Decompose(n) ==
    LET i == DigitsFrom(n, Len(n))
        sized == n[i] = 95 /\ i < Len(n)
        size == IF sized THEN DigitsVal(SubSeq(n, i + 1, Len(n))) ELSE 0
        m == IF sized THEN SubSeq(n, 1, i - 1) ELSE n
        fmt == EndsWith(m, SFormatted)
        stem == IF fmt THEN SubSeq(m, 1, Len(m) - 10) ELSE m
    IN [stem |-> stem, fmt |-> fmt, sized |-> sized, size |-> size]

Formatted(sc, n, v) ==
    IF StartsWith(n, PDate)
    THEN LET f == Plain(sc, NDateFormat)
         IN IF f.ok /\ IsDate(v) THEN
                LET r == FormatDate(v, f.v)
                IN IF r = <<>> \/ Len(r) >= 1024 THEN v ELSE r
            ELSE v
    ELSE v

Resolve(sc, n) ==
    IF n = <<>> THEN No
    ELSE IF Plain(sc, n).ok THEN Plain(sc, n)
    ELSE IF n \in {NItem, NValue} THEN Base(sc, n)
    ELSE LET d == Decompose(n)
             b == Base(sc, d.stem)
             f == IF d.fmt THEN Formatted(sc, n, b.v) ELSE b.v
         IN IF ~b.ok THEN No
            ELSE IF d.sized /\ d.size > 0 /\ d.size < Len(f) THEN Yes(SubSeq(f, 1, d.size))
            ELSE Yes(f)
=============================================================================
