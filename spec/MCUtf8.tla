------------------------------- MODULE MCUtf8 -------------------------------
(***************************************************************************)
(* The decoder reads byte after byte.  Checked: it is satisfied exactly by *)
(* the concatenations of encoded code points (what an encoded code point   *)
(* is being stated by arithmetic), it never recovers, and it never expects *)
(* more than three bytes.                                                  *)
(***************************************************************************)
EXTENDS Utf8
CONSTANTS MaxLen, Bytes

VARIABLES text, st
vars == <<text, st>>
Init == text = <<>> /\ st = <<>>
Read == /\ Len(text) < MaxLen
        /\ \E c \in Bytes : text' = Append(text, c) /\ st' = Utf8Step(st, c)
Spec == Init /\ [][Read]_vars

Follows(c, from) == \A i \in from..Len(c) : c[i] \div 64 = 2
Low(c, i) == c[i] % 64
IsChar(c) ==
    CASE Len(c) = 1 -> c[1] < 128
      [] Len(c) = 2 -> /\ c[1] \div 32 = 6 /\ Follows(c, 2)
                       /\ (c[1] % 32) * 64 + Low(c, 2) >= 128
      [] Len(c) = 3 -> /\ c[1] \div 16 = 14 /\ Follows(c, 2)
                       /\ LET v == (c[1] % 16) * 4096 + Low(c, 2) * 64 + Low(c, 3)
                          IN v >= 2048 /\ v \notin 55296..57343
      [] Len(c) = 4 -> /\ c[1] \div 8 = 30 /\ Follows(c, 2)
                       /\ LET v == (c[1] % 8) * 262144 + Low(c, 2) * 4096 + Low(c, 3) * 64 + Low(c, 4)
                          IN v \in 65536..1114111
      [] OTHER -> FALSE
RECURSIVE WellFormed(_)
WellFormed(s) ==
    \/ s = <<>>
    \/ \E n \in 1..Min2(4, Len(s)) : IsChar(SubSeq(s, 1, n)) /\ WellFormed(SubSeq(s, n + 1, Len(s)))

Exact == (st = <<>>) <=> WellFormed(text)
Expects == Len(st) <= 3
Dead == <<<<1, 0>>>>
NeverRecovers == [][st = Dead => st' = Dead]_vars
(* what is not dead can be completed *)
Completes == st # Dead => WellFormed(text \o [i \in 1..Len(st) |-> st[i][1]])
=============================================================================
