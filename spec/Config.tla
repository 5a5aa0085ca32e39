------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Settings files: sections, key = value lines, list items, comments.      *)
(* ConfigStep is the machine: it consumes one section header, comment,     *)
(* pair or item.  Sections are kept in the order of their last start.      *)
(***************************************************************************)
EXTENDS Text

Blanks == {32, 9, 11, 12}
BackSlash == 92
Quote == 34

(* the text of a value from position i: [ok, v, next, quoted].  next is the
   position after the value (a line ending, or the end of the file) *)
RECURSIVE QuotedFrom(_, _, _), BareFrom(_, _, _)
QuotedFrom(s, i, acc) ==
    IF i > Len(s) THEN [ok |-> FALSE, v |-> acc, next |-> i]
    ELSE IF s[i] = BackSlash THEN
        (IF i = Len(s) THEN [ok |-> FALSE, v |-> acc, next |-> i] ELSE QuotedFrom(s, i + 2, Append(acc, s[i + 1])))
    ELSE IF s[i] = Quote THEN
        (LET n == FindNotIn(s, i + 1, Blanks)
         IN [ok |-> n > Len(s) \/ s[n] \in Newlines, v |-> acc, next |-> n])
    ELSE QuotedFrom(s, i + 1, Append(acc, s[i]))
BareFrom(s, i, acc) ==
    IF i > Len(s) \/ s[i] \in Newlines THEN [ok |-> TRUE, v |-> acc, next |-> i]
    ELSE IF s[i] = BackSlash THEN
        (IF i = Len(s) THEN [ok |-> FALSE, v |-> acc, next |-> i] ELSE BareFrom(s, i + 2, Append(acc, s[i + 1])))
    ELSE BareFrom(s, i + 1, Append(acc, s[i]))
(* the value that starts at or after the blanks at i *)
ValueFrom(s, i) ==
    LET b == FindNotIn(s, i, Blanks)
    IN IF b <= Len(s) /\ s[b] = Quote
       THEN LET q == QuotedFrom(s, b + 1, <<>>) IN [ok |-> q.ok, v |-> q.v, next |-> q.next, none |-> FALSE, quoted |-> TRUE]
       ELSE LET u == BareFrom(s, b, <<>>)
            IN [ok |-> u.ok, v |-> u.v, next |-> u.next, none |-> b > Len(s) \/ s[b] \in Newlines, quoted |-> FALSE]

(* a: [i, secs, st]: st is "run", "bad" or "end"; a section is
   <<name, [list, items]>>, items of maps are <<key, value>> *)
ConfigStep(a, s, lists) ==
    LET p == FindNotIn(s, a.i, {32, 9, 10, 13})
        bad == [a EXCEPT !.st = "bad"]
        cur == a.secs[Len(a.secs)]
        Grow(x) == [a.secs EXCEPT ![Len(a.secs)] = <<cur[1], [cur[2] EXCEPT !.items = x]>>]
    IN IF p > Len(s) THEN [a EXCEPT !.st = "end"]
       ELSE IF s[p] \in {35, 59} THEN [a EXCEPT !.i = FindIn(s, p, Newlines)]
       ELSE IF s[p] = 91 THEN
            LET r == FindIn(s, p + 2, {93} \cup Newlines)
                name == SubSeq(s, p + 1, r - 1)
            IN IF p + 1 > Len(s) \/ r > Len(s) THEN bad
               ELSE IF s[p + 1] \in Newlines \/ s[r] # 93 THEN bad
               ELSE [a EXCEPT !.i = r + 1, !.secs = Put(@, name, [list |-> name \in lists, items |-> <<>>])]
       ELSE IF a.secs = <<>> THEN bad
       ELSE IF cur[2].list THEN
            LET v == ValueFrom(s, p)
            IN IF ~v.ok THEN bad
               ELSE [a EXCEPT !.i = v.next,
                              !.secs = IF v.none THEN @
                                       ELSE Grow(Append(cur[2].items, IF v.quoted THEN v.v ELSE Strip(v.v)))]
       ELSE LET e == FindIn(s, p, {61} \cup Newlines)
                v == ValueFrom(s, e + 1)
            IN IF e > Len(s) THEN bad
               ELSE IF s[e] # 61 \/ ~v.ok THEN bad
               ELSE [a EXCEPT !.i = v.next,
                              !.secs = Grow(Put(cur[2].items, Strip(SubSeq(s, p, e - 1)),
                                                IF v.quoted THEN v.v ELSE RStrip(v.v)))]
RECURSIVE ConfigFrom(_, _, _)
ConfigFrom(a, s, lists) == IF a.st # "run" THEN a ELSE ConfigFrom(TLCEval(ConfigStep(a, s, lists)), s, lists)

ParseConfig(s, lists) ==
    LET a == ConfigFrom([i |-> 1, secs |-> <<>>, st |-> "run"], s, lists)
    IN [ok |-> a.st = "end", secs |-> a.secs]

(* an undefined section or key is [ok |-> FALSE] *)
Section(c, name) == IF Defined(c.secs, name) THEN [ok |-> TRUE, v |-> Value(c.secs, name).items] ELSE [ok |-> FALSE, v |-> <<>>]
Setting(c, sec, key) ==
    LET s == Section(c, sec) IN IF s.ok /\ Defined(s.v, key) THEN [ok |-> TRUE, v |-> Value(s.v, key)] ELSE [ok |-> FALSE, v |-> <<>>]
=============================================================================
