------------------------------ MODULE MCContent ------------------------------
(***************************************************************************)
(* Content blocks: every content of up to MaxLines lines (each line has a  *)
(* shape and a letter of its own) is written line by line and rendered     *)
(* block by block.  Checked: every letter reaches the output exactly once  *)
(* and in order; blocks end at blank lines and never reach over one; the   *)
(* line ending does not matter; a quoted content is the content in a       *)
(* blockquote.                                                             *)
(***************************************************************************)
EXTENDS Content
CONSTANT MaxLines

Shapes == {T("x"), T("> "), T(">"), T("- "), T("* "), T("  "), T("1. "), T("12"), T("# "), T("##"), T("<"), T("..."), T("---"), T(""), T("*"), T("+")}
Letterless == {T(""), T("..."), T("---")}
Line(shape, k) == IF shape \in Letterless THEN shape ELSE Append(shape, 64 + k)

VARIABLES lines, a
vars == <<lines, a>>
Text(nl) == Concat([k \in 1..Len(lines) |-> lines[k] \o nl])
LF == <<10>>
CRLF == <<13, 10>>
Ls == Lines(Text(LF))

Init == lines = <<>> /\ a = BlocksInit @@ [go |-> FALSE, from |-> 0, to |-> 0]
Write == /\ ~a.go /\ Len(lines) < MaxLines
         /\ \E s \in Shapes : lines' = Append(lines, Line(s, Len(lines) + 1))
         /\ UNCHANGED a
Start == ~a.go /\ lines # <<>> /\ a' = [a EXCEPT !.go = TRUE] /\ UNCHANGED lines
Step == /\ a.go /\ a.i <= Len(Ls)
        /\ LET b == BlockStep(a, Ls, LF, TRUE, FALSE) IN a' = [b EXCEPT !.from = a.i, !.to = b.i - 1]
        /\ UNCHANGED lines
Next == Write \/ Start \/ Step
Spec == Init /\ [][Next]_vars
Done == a.go /\ a.i > Len(Ls)

Progress == a.go /\ a.to > 0 => a.to >= a.from
OneBlock == a.go /\ a.to > a.from => \A k \in a.from..a.to : Ls[k].t # <<>>
WholeBlock == a.go /\ a.to > 0 => \/ a.to = Len(Ls) \/ Ls[a.to].t = <<>> \/ Ls[a.to + 1].t = <<>>
                                  \/ IsHeader(Ls[a.to].t) \/ IsRule(Ls[a.to].t)
(* the letters A.. of the lines *)
LettersOf(s) == SelectSeq(s, LAMBDA c : c \in 65..(64 + MaxLines))
Want == LettersOf(Concat(lines))
(* the id of a header repeats its text in small letters *)
Lossless == Done => LettersOf(a.out) = Want
Same == Done => a.out = Content(Text(LF), FALSE).out
Endings ==
    Done => LET c == Content(Text(CRLF), FALSE)
            IN /\ c.out = Concat([k \in 1..Len(a.out) |-> IF a.out[k] = 10 THEN CRLF ELSE <<a.out[k]>>])
               /\ c.fh = a.fh /\ c.desc = a.desc /\ c.heads = a.heads
Quoted ==
    Done /\ lines[1] # <<>> /\ lines[1][1] \notin Blank =>
      LET q == Concat([k \in 1..Len(lines) |-> T("> ") \o lines[k] \o LF])
          inner == Blocks(Text(LF), LF, FALSE, FALSE).out
      IN Content(q, FALSE).out = T("<blockquote>") \o inner \o T("</blockquote>") \o LF
NoFinalEnding == Done /\ lines[Len(lines)] # <<>> => Content(SubSeq(Text(LF), 1, Len(Text(LF)) - 1), FALSE).out = a.out
=============================================================================
