------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Text is a sequence of byte values (0..255).  T("abc") gives the text of *)
(* a TLA+ string.  Everything the other modules need to talk about texts.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
              31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c]

T(s) == TLCEval([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])

NL == 10
CR == 13
TAB == 9
SPC == 32
Spaces == {32, 12, 10, 13, 9, 11}
Upper == 65..90
Lower == 97..122
Digit == 48..57
NameChars == Upper \cup Digit \cup {95}
Newlines == {10, 13}

IsSpace(c) == c \in Spaces

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* positions: the first i >= from with s[i] in (not in) the set C, or Len(s)+1 *)
RECURSIVE FindIn(_, _, _)
FindIn(s, from, C) ==
    IF from > Len(s) THEN Len(s) + 1
    ELSE IF s[from] \in C THEN from ELSE FindIn(s, from + 1, C)
RECURSIVE FindNotIn(_, _, _)
FindNotIn(s, from, C) ==
    IF from > Len(s) THEN Len(s) + 1
    ELSE IF s[from] \notin C THEN from ELSE FindNotIn(s, from + 1, C)

LStrip(s) == SubSeq(s, FindNotIn(s, 1, Spaces), Len(s))

RECURSIVE LastNonSpace(_, _)
LastNonSpace(s, i) ==
    IF i = 0 THEN 0 ELSE IF IsSpace(s[i]) THEN LastNonSpace(s, i - 1) ELSE i
RStrip(s) == SubSeq(s, 1, LastNonSpace(s, Len(s)))
Strip(s) == LStrip(RStrip(s))

(* IsPrefix comes from SequencesExt *)
EndsWith(s, suf) ==
    /\ Len(s) >= Len(suf)
    /\ SubSeq(s, Len(s) - Len(suf) + 1, Len(s)) = suf
StartsWith(s, pre) ==
    /\ Len(s) >= Len(pre)
    /\ SubSeq(s, 1, Len(pre)) = pre

Elems(s) == {s[i] : i \in 1..Len(s)}

(* bytewise comparison: -1, 0, 1 (strcmp) *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE IF i > Len(a) THEN -1
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)

(* split at every occurrence of character c *)
Split(s, c) ==
    LET Step(acc, x) ==
            IF x = c THEN [acc EXCEPT !.out = Append(@, acc.cur), !.cur = <<>>]
            ELSE [acc EXCEPT !.cur = Append(@, x)]
        r == FoldLeft(Step, [out |-> <<>>, cur |-> <<>>], s)
    IN Append(r.out, r.cur)

(* the non-empty words of a space separated list *)
Words(s) == SelectSeq(Split(s, SPC), LAMBDA w : w # <<>>)

(* concatenation of a sequence of texts *)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
(* joined with separator *)
Join(ss, sep) ==
    IF ss = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, Head(ss), Tail(ss))

ToLowerC(c) == IF c \in Upper THEN c + 32 ELSE c
ToUpperC(c) == IF c \in Lower THEN c - 32 ELSE c
MapText(f(_), s) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
ToLower(s) == MapText(ToLowerC, s)

(* decimal numerals *)
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o NatText(-n) ELSE NatText(n)
Pad2(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
Pad4(n) == <<48 + ((n \div 1000) % 10), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>

Saturated == 100000000
(* value of a digit sequence, saturating (TLC integers have 32 bits) *)
DigitsVal(s) ==
    FoldLeft(LAMBDA a, c : IF a >= Saturated THEN Saturated
                           ELSE Min2(Saturated, a * 10 + (c - 48)), 0, s)

(* strtol(3): optional blanks, sign, digits, rest is ignored.  0 without digits *)
StrToL(s) ==
    LET b == FindNotIn(s, 1, Spaces)
        neg == b <= Len(s) /\ s[b] = 45
        d == IF b <= Len(s) /\ s[b] \in {43, 45} THEN b + 1 ELSE b
        e == FindNotIn(s, d, Digit)
        v == DigitsVal(SubSeq(s, d, e - 1))
    IN IF neg THEN -v ELSE v

(* is the whole text a number for strtol: nothing is left over *)
StrToLClean(s) ==
    LET b == FindNotIn(s, 1, Spaces)
        d == IF b <= Len(s) /\ s[b] \in {43, 45} THEN b + 1 ELSE b
        e == FindNotIn(s, d, Digit)
    IN e > d /\ e = Len(s) + 1

TrueWords == {T("1"), T("y"), T("yes"), T("true"), T("on")}
ToBool(s) == ToLower(s) \in TrueWords

(* association sequences <<name, value>>, last definition wins *)
Names(env) == {env[i][1] : i \in 1..Len(env)}
Defined(env, n) == \E i \in 1..Len(env) : env[i][1] = n
Value(env, n) ==
    LET i == CHOOSE i \in 1..Len(env) :
                env[i][1] = n /\ \A j \in (i + 1)..Len(env) : env[j][1] # n
    IN env[i][2]
Put(env, n, v) == Append(SelectSeq(env, LAMBDA p : p[1] # n), <<n, v>>)
=============================================================================
