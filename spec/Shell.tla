------------------------------- MODULE Shell -------------------------------
(***************************************************************************)
(* The words of a POSIX shell command line, as far as blogc's command      *)
(* lines need them: quoting, escapes and word separation.  An unquoted     *)
(* character with a meaning of its own (expansion, operators, patterns)    *)
(* makes the result "active": something would be interpreted.              *)
(***************************************************************************)
EXTENDS Text

SQ == 39
DQ == 34
BS == 92
ActiveChars == {36, 96, 59, 38, 124, 60, 62, 40, 41, 42, 63, 91, 35, 126, 10, 33}     \* $ ` ; & | < > ( ) * ? [ # ~ newline !
(* st: [mode, words, cur, open, active]: mode 0 between words, 1 in a word, 2 in
   single quotes, 3 in double quotes *)
ShellStep(st, c) ==
    CASE st.mode = 2 -> IF c = SQ THEN [st EXCEPT !.mode = 1] ELSE [st EXCEPT !.cur = Append(@, c)]
      [] st.mode = 3 -> IF st.esc THEN [st EXCEPT !.esc = FALSE, !.cur = IF c \in {DQ, BS, 36, 96} THEN Append(@, c) ELSE Append(Append(@, BS), c)]
                        ELSE IF c = DQ THEN [st EXCEPT !.mode = 1]
                        ELSE IF c = BS THEN [st EXCEPT !.esc = TRUE]
                        ELSE [st EXCEPT !.cur = Append(@, c), !.active = @ \/ c \in {36, 96}]
      [] OTHER ->
            IF st.esc THEN [st EXCEPT !.esc = FALSE, !.mode = 1, !.cur = IF c = 10 THEN @ ELSE Append(@, c)]
            ELSE IF c = SQ THEN [st EXCEPT !.mode = 2]
            ELSE IF c = DQ THEN [st EXCEPT !.mode = 3]
            ELSE IF c = BS THEN [st EXCEPT !.esc = TRUE]
            ELSE IF c \in {32, 9} THEN (IF st.mode = 0 THEN st ELSE [st EXCEPT !.mode = 0, !.words = Append(@, st.cur), !.cur = <<>>])
            ELSE [st EXCEPT !.mode = 1, !.cur = Append(@, c), !.active = @ \/ c \in ActiveChars]
ShellWords(s) ==
    LET st == FoldLeft(ShellStep, [mode |-> 0, words |-> <<>>, cur |-> <<>>, esc |-> FALSE, active |-> FALSE], s)
    IN [ok |-> st.mode \in {0, 1} /\ ~st.esc, active |-> st.active,
        words |-> IF st.mode = 1 THEN Append(st.words, st.cur) ELSE st.words]

(* the quoting of a value that is passed to a child program *)
Quote(s) ==
    <<SQ>> \o FoldLeft(LAMBDA a, c : a \o (IF c = SQ \/ c = 33 THEN <<SQ, BS, c, SQ>> ELSE <<c>>), <<>>, s) \o <<SQ>>
=============================================================================
