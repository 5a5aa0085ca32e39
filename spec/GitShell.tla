------------------------------ MODULE GitShell ------------------------------
(***************************************************************************)
(* blogc-git-receiver as a login shell: which commands are executed, on    *)
(* which repository, and what is set up before a push is accepted.         *)
(***************************************************************************)
EXTENDS Shell

Verbs == {T("git-receive-pack"), T("git-upload-pack"), T("git-upload-archive")}

(* the texts that git quotes one word to: '...' with quotes and exclamation
   marks as '\'' and '\!'.  strict is what git writes; what a shell would also
   read as the same word is accepted, or is not *)
(* mode: 0 outside, 1 inside quotes, 2 after a backslash, 3 bad; last: the piece before (0 none, 1 quotes, 2 escape) *)
PieceStep(a, c) ==
    CASE a.mode = 1 -> IF c = SQ THEN [a EXCEPT !.mode = 0] ELSE [a EXCEPT !.name = Append(@, c)]
      [] a.mode = 2 -> IF c \in {SQ, 33} THEN [a EXCEPT !.mode = 0, !.name = Append(@, c)] ELSE [a EXCEPT !.mode = 3]
      [] a.mode = 0 -> IF c = SQ THEN [a EXCEPT !.mode = 1, !.last = 1, !.strict = @ /\ a.last # 1]
                       ELSE IF c = BS THEN [a EXCEPT !.mode = 2, !.last = 2, !.strict = @ /\ a.last = 1]
                       ELSE [a EXCEPT !.mode = 3]
      [] OTHER -> a
Word(s) ==
    LET p == FoldLeft(PieceStep, [mode |-> 0, last |-> 0, name |-> <<>>, strict |-> TRUE], s)
    IN [ok |-> p.mode = 0 /\ p.last # 0, name |-> p.name, strict |-> p.strict /\ p.last = 1]

(* the repository that a name stands for: the directories on the way to it *)
Segments(name) == SelectSeq(Split(name, 47), LAMBDA x : x # <<>> /\ x # T("."))
Proper(name) ==
    LET segs == Segments(name)
    IN segs # <<>> /\ \A i \in 1..Len(segs) : segs[i] # T("..")

No == [ok |-> FALSE, strict |-> FALSE, verb |-> <<>>, segs |-> <<>>]
Parse(cmd) ==
    LET e == FindIn(cmd, 1, {SPC})
        verb == SubSeq(cmd, 1, e - 1)
        w == Word(SubSeq(cmd, e + 1, Len(cmd)))
    IN IF verb \notin Verbs \/ ~w.ok \/ ~Proper(w.name) THEN No
       ELSE [ok |-> TRUE, strict |-> w.strict, verb |-> verb, segs |-> Segments(w.name)]

Receive == T("git-receive-pack")
Repos == T("repos")
PreHook == T("pre-receive")
PostHook == T("post-receive")
Hooks == T("hooks")

(***************************************************************************)
(* Setting up.  What is at a place: "none", "dir", "file", "link" (to      *)
(* nothing or to a file), "dirlink", "self" (a link to this program).      *)
(* A state is [repo, hooks, pre, post, st], st: what is done next.         *)
(***************************************************************************)
Places == {"none", "dir", "file", "link", "dirlink", "self"}
IsDir(k) == k \in {"dir", "dirlink"}
Fail(s) == [s EXCEPT !.st = "refused"]
(* fails: what goes wrong (init, mkdir, link) *)
SetUpStep(s, fails) ==
    CASE s.st = "repo" ->
            IF s.repo = "none" THEN (IF "init" \in fails THEN Fail(s) ELSE [s EXCEPT !.repo = "dir", !.hooks = "dir", !.pre = "none", !.post = "none", !.st = "hooks"])
            ELSE IF IsDir(s.repo) THEN [s EXCEPT !.st = "hooks"] ELSE Fail(s)
      [] s.st = "hooks" ->
            IF s.hooks = "none" THEN (IF "mkdir" \in fails THEN Fail(s) ELSE [s EXCEPT !.hooks = "dir", !.pre = "none", !.post = "none", !.st = "clear1"])
            ELSE IF IsDir(s.hooks) THEN [s EXCEPT !.st = "clear1"] ELSE Fail(s)
      [] s.st = "clear1" -> IF s.pre = "none" THEN [s EXCEPT !.st = "link1"] ELSE IF s.pre = "dir" THEN Fail(s) ELSE [s EXCEPT !.pre = "none", !.st = "link1"]
      [] s.st = "link1" -> IF "link" \in fails THEN Fail(s) ELSE [s EXCEPT !.pre = "self", !.st = "clear2"]
      [] s.st = "clear2" -> IF s.post = "none" THEN [s EXCEPT !.st = "link2"] ELSE IF s.post = "dir" THEN Fail(s) ELSE [s EXCEPT !.post = "none", !.st = "link2"]
      [] s.st = "link2" -> IF "link2" \in fails THEN Fail(s) ELSE [s EXCEPT !.post = "self", !.st = "executed"]
(* can it be set up *)
Feasible(repo, hooks, pre, post) ==
    \/ repo = "none"
    \/ /\ IsDir(repo)
       /\ hooks = "none" \/ (IsDir(hooks) /\ pre # "dir" /\ post # "dir")
=============================================================================
