------------------------------ MODULE MCSource ------------------------------
(***************************************************************************)
(* Every source of up to MaxLen characters is written, then read by the    *)
(* header machine one line at a time.  Checked: the machine accepts and    *)
(* finds exactly what the line by line description of the format says, and *)
(* nothing that follows the separator is ever lost.                        *)
(***************************************************************************)
EXTENDS Source, Json
CONSTANTS MaxLen, ShowCases

Chars == {65, 49, 58, 10, 32, 45, 120}
VARIABLES text, a
vars == <<text, a>>

Init == text = <<>> /\ a = [i |-> 1, env |-> <<>>, st |-> "build", from |-> 0]
Write == /\ a.st = "build" /\ Len(text) < MaxLen
         /\ \E c \in Chars : text' = Append(text, c)
         /\ UNCHANGED a
Start == /\ a.st = "build" /\ a' = [a EXCEPT !.st = "head"] /\ UNCHANGED text
Read == /\ a.st = "head" /\ a' = SourceStep(a, text) /\ UNCHANGED text
        /\ (ShowCases /\ a'.st \in {"bad", "end"} =>
              PrintT("CASE " \o ToJson([src |-> text, ok |-> a'.st = "end"])))
Next == Write \/ Start \/ Read
Spec == Init /\ [][Next]_vars
Done == a.st \in {"bad", "end"}

(* the format, line by line; the last piece has no line ending *)
Pieces == Split(text, 10)
Bare(k) == LET p == Pieces[k] IN SubSeq(p, FindNotIn(p, 1, {32, 9}), Len(p))
Sep(k) == Bare(k) # <<>> /\ Run(Bare(k), 45) = Len(Bare(k))
Key(l) == SubSeq(l, 1, FindNotIn(l, 1, NameChars) - 1)
IsHead(l) == l # <<>> /\ l[1] \in Upper /\ Len(Key(l)) < Len(l) /\ l[Len(Key(l)) + 1] = 58
N == Len(Pieces)
Seps == {k \in 1..N : Sep(k)}
First == IF Seps = {} THEN N + 1 ELSE CHOOSE k \in Seps : \A j \in Seps : k <= j
Heads == {k \in 1..Min2(First - 1, N) : IsHead(Bare(k))}
Valid == /\ \A k \in 1..Min2(First - 1, N) : Bare(k) = <<>> \/ (k \in Heads /\ k < N)
         /\ Seps # {} \/ Heads # {}
ValueOf(n) == LET ks == {k \in Heads : Key(Bare(k)) = n}
                  k == CHOOSE x \in ks : \A y \in ks : y <= x
              IN Strip(SubSeq(Bare(k), Len(n) + 2, Len(Bare(k))))
Rest == Join([k \in 1..(N - First) |-> Pieces[First + k]], <<10>>)
Body == SubSeq(Rest, FindNotIn(Rest, 1, Newlines), Len(Rest))

AcceptsExactly == Done => (a.st = "end") = Valid
Reads == Done /\ a.st = "end" =>
            /\ {e[1] : e \in Elems(a.env)} = {Key(Bare(k)) : k \in Heads}
            /\ \A e \in Elems(a.env) : e[2] = ValueOf(e[1])
Keeps == Done /\ a.st = "end" =>
            IF First > N \/ Body = <<>> THEN a.from = 0 ELSE SubSeq(text, a.from, Len(text)) = Body
Moves == a.st = "head" => a.i <= Len(text) + 1
=============================================================================
