----------------------------- MODULE MCGitShell -----------------------------
(* Which commands are executed: all tails of a command up to a size.        *)
EXTENDS GitShell, Json
CONSTANTS Size, Every
Chars == {97, SPC, SQ, BS, 33, 47, 46}
VARIABLES s
Init == s = <<>>
Next == Len(s) < Size /\ \E c \in Chars : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Cmd == T("git-upload-pack ") \o s
P == Parse(Cmd)
(* for a shell, an accepted command is the verb and one word, the name *)
OneWord ==
    P.ok => LET r == ShellWords(Cmd)
            IN r.ok /\ ~r.active /\ Len(r.words) = 2 /\ r.words[1] = P.verb /\ Segments(r.words[2]) = P.segs
(* what git sends for a proper name is accepted *)
Sent == LET q == Parse(T("git-receive-pack ") \o Quote(s)) IN q.ok = Proper(s) /\ (q.ok => q.strict /\ q.segs = Segments(s))
(* nothing outside of the directory of the repositories, nor that itself *)
Inside == P.ok => Len(P.segs) > 0 /\ \A i \in 1..Len(P.segs) : P.segs[i] \notin {<<>>, T("."), T("..")} /\ ~(\E j \in 1..Len(P.segs[i]) : P.segs[i][j] = 47)
(* a strict one is what Quote makes, with the quotes around nothing that git does not write *)
Strict == P.ok /\ P.strict => (Word(s).name # <<>> => Parse(T("git-upload-pack ") \o Quote(Word(s).name)) = P)
Show == (P.ok \/ Cardinality({i \in 1..Len(s) : s[i] \in {SQ, BS}}) >= Every) => PrintT("CASE " \o ToJson([s |-> s]))
=============================================================================
