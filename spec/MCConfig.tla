------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* Every settings file of up to MaxLen characters is written, then read by *)
(* the machine.  A section named "l" is a list.  Checked: the machine      *)
(* always advances; files without escapes and quotes mean what their lines *)
(* mean one by one; a final line ending changes nothing; two valid files   *)
(* one after the other mean both; a rejected beginning is never repaired   *)
(* by what follows, except an unfinished last line.                        *)
(***************************************************************************)
EXTENDS Config, Json
CONSTANTS MaxLen, ShowCases

Chars == {91, 93, 108, 61, 34, 92, 10, 35, 32}
Lists == {<<108>>}
VARIABLES text, a
vars == <<text, a>>

Init == text = <<>> /\ a = [i |-> 1, secs |-> <<>>, st |-> "build"]
Write == /\ a.st = "build" /\ Len(text) < MaxLen
         /\ \E c \in Chars : text' = Append(text, c)
         /\ UNCHANGED a
Start == /\ a.st = "build" /\ a' = [a EXCEPT !.st = "run"] /\ UNCHANGED text
Read == /\ a.st = "run" /\ a' = ConfigStep(a, text, Lists) /\ UNCHANGED text
        /\ (ShowCases /\ a'.st \in {"bad", "end"} => PrintT("CASE " \o ToJson([src |-> text, ok |-> a'.st = "end"])))
Next == Write \/ Start \/ Read
Spec == Init /\ [][Next]_vars
Done == a.st \in {"bad", "end"}
Moves == a.st = "run" => a.i <= Len(text) + 1
Advances == [][a.st = "run" => \/ a'.i > a.i \/ a'.st \in {"bad", "end"}]_vars

(* the format line by line, for texts without quotes and escapes.  A line may
   begin with several section headers *)
Simple == \A i \in 1..Len(text) : text[i] \notin {Quote, BackSlash}
RECURSIVE HeadsOf(_)
HeadsOf(l) ==     \* [heads, rest, ok]
    LET b == SubSeq(l, FindNotIn(l, 1, {32, 9}), Len(l))
        r == FindIn(b, 3, {93})
    IN IF b = <<>> \/ b[1] # 91 THEN [heads |-> <<>>, rest |-> b, ok |-> TRUE]
       ELSE IF r > Len(b) THEN [heads |-> <<>>, rest |-> b, ok |-> FALSE]
       ELSE LET x == HeadsOf(SubSeq(b, r + 1, Len(b)))
            IN [x EXCEPT !.heads = <<SubSeq(b, 2, r - 1)>> \o @]
Pieces == Split(text, 10)
Meaning ==
    LET Line(m, l) ==
            LET h == HeadsOf(l)
                secs == FoldLeft(LAMBDA acc, n : Put(acc, n, [list |-> n \in Lists, items |-> <<>>]), m.secs, h.heads)
                cur == secs[Len(secs)]
                eq == FindIn(h.rest, 1, {61})
                Grow(x) == [secs EXCEPT ![Len(secs)] = <<cur[1], [cur[2] EXCEPT !.items = x]>>]
            IN IF ~m.ok \/ ~h.ok THEN [m EXCEPT !.ok = FALSE]
               ELSE IF h.rest = <<>> \/ h.rest[1] = 35 THEN [m EXCEPT !.secs = secs]
               ELSE IF secs = <<>> THEN [m EXCEPT !.ok = FALSE]
               ELSE IF cur[2].list THEN [m EXCEPT !.secs = Grow(Append(cur[2].items, Strip(h.rest)))]
               ELSE IF eq > Len(h.rest) THEN [m EXCEPT !.ok = FALSE]
               ELSE [m EXCEPT !.secs = Grow(Put(cur[2].items, Strip(SubSeq(h.rest, 1, eq - 1)),
                                                Strip(SubSeq(h.rest, eq + 1, Len(h.rest)))))]
    IN FoldLeft(Line, [ok |-> TRUE, secs |-> <<>>], Pieces)
LineByLine == Done /\ Simple => /\ (a.st = "end") = Meaning.ok
                                /\ a.st = "end" => a.secs = Meaning.secs

P(t) == ParseConfig(t, Lists)
FinalNewline == Done => LET p == P(text \o <<10>>)
                        IN /\ a.st = "end" => p.ok /\ p.secs = a.secs
                           /\ p.ok /\ (text = <<>> \/ text[Len(text)] # BackSlash) => a.st = "end"
CarriageReturn == Done /\ (\A i \in 1..Len(text) : text[i] # BackSlash) /\ Simple =>
    LET p == P([i \in 1..Len(text) |-> IF text[i] = 10 THEN 13 ELSE text[i]]) IN p.ok = (a.st = "end") /\ p.secs = a.secs
(* cutting a valid file at any line ending outside of quotes: the rest extends the beginning *)
Extends == a.st = "end" /\ Simple =>
    \A i \in 1..Len(text) : text[i] = 10 => P(SubSeq(text, 1, i)).ok
=============================================================================
