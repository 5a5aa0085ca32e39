------------------------------ MODULE MCShell ------------------------------
(* Every text is one word with the same characters after quoting, wherever *)
(* it stands in a command line, and nothing in it is interpreted.          *)
EXTENDS Shell
CONSTANTS Size
Chars == {97, 32, 9, 10, SQ, DQ, BS, 36, 96, 40, 59, 33, 42, 35, 61, 45, 126, 38}
VARIABLES s
Init == s = <<>>
Next == Len(s) < Size /\ \E c \in Chars : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Word == LET r == ShellWords(Quote(s)) IN r.ok /\ ~r.active /\ r.words = <<s>>
Inside ==
    LET r == ShellWords(T("LC_ALL=") \o Quote(s) \o T(" x -D K=") \o Quote(s) \o T(" -o ") \o Quote(Quote(s)))
    IN r.ok /\ ~r.active /\ r.words = <<T("LC_ALL=") \o s, T("x"), T("-D"), T("K=") \o s, T("-o"), Quote(s)>>
=============================================================================
