----------------------------- MODULE TraceShell -----------------------------
(* Login commands given to blogc-git-receiver, judged by GitShell.          *)
EXTENDS GitShell, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: kind ("c": a command with -c, "ssh": a command in the environment,
   "other"), cmd, self [ok, v]: what the hooks have to point to, base [ok, v],
   initfails, status: what git-shell answers; tree, post: what is in the base
   directory before and after: [p: path, k: kind (without following), t:
   target or content, s: kind of what it leads to ("none" if nothing)], also
   behind links; execs: the calls of git and git-shell [prog, argv]; rc *)
At(tree, p) ==
    IF \E i \in 1..Len(tree) : tree[i].p = p THEN tree[CHOOSE i \in 1..Len(tree) : tree[i].p = p]
    ELSE [p |-> p, k |-> "none", t |-> <<>>, s |-> "none"]
Kind(c, tree, p) ==
    LET x == At(tree, p)
    IN IF x.k = "link" THEN (IF x.s = "dir" THEN "dirlink" ELSE IF x.t = c.self.v THEN "self" ELSE "link") ELSE x.k
AllDirs(c, segs) == \A i \in 1..Len(segs) : At(c.tree, <<Repos>> \o SubSeq(segs, 1, i)).s \in {"dir", "none"} /\ (At(c.tree, <<Repos>> \o SubSeq(segs, 1, i)).k # "link" \/ At(c.tree, <<Repos>> \o SubSeq(segs, 1, i)).s = "dir")

Quoted(c, segs) == Quote(Join(<<c.base.v, Repos>> \o segs, <<47>>))
(* git-shell is not called with more than this *)
TooBig(c, P) == Len(P.verb) + 1 + Len(Quoted(c, P.segs)) >= 4090
Expected(c) ==
    LET P == Parse(c.cmd)
        R == <<Repos>> \o P.segs
        H == R \o <<Hooks>>
        gate == c.kind \in {"c", "ssh"} /\ c.self.ok /\ c.base.ok /\ P.ok
        can == \/ P.verb # Receive
               \/ /\ AllDirs(c, P.segs)
                  /\ Feasible(Kind(c, c.tree, R), Kind(c, c.tree, H), Kind(c, c.tree, H \o <<PreHook>>), Kind(c, c.tree, H \o <<PostHook>>))
                  /\ ~(c.initfails /\ At(c.tree, R).s = "none")
    IN TLCEval([may |-> gate /\ can, must |-> gate /\ can /\ P.strict /\ ~TooBig(c, P), gate |-> gate, verb |-> P.verb, segs |-> P.segs])

(* the program, and the words that are its arguments, name this repository *)
Names2(c, path, segs) == path # <<>> /\ path[1] = 47 /\ SelectSeq(Segments(path), LAMBDA x : TRUE) = Segments(c.base.v) \o <<Repos>> \o segs
Shells(c) == SelectSeq(c.execs, LAMBDA x : x.prog = T("git-shell"))
Gits(c) == SelectSeq(c.execs, LAMBDA x : x.prog # T("git-shell"))
Ran(c, e) ==
    /\ Len(Shells(c)) = 1
    /\ LET a == Shells(c)[1].argv
           q == IF Len(a) = 2 THEN Parse(a[2]) ELSE No
       IN Len(a) = 2 /\ a[1] = T("-c") /\ q.ok /\ q.strict /\ q.verb = e.verb
          /\ Names2(c, Word(SubSeq(a[2], Len(q.verb) + 2, Len(a[2]))).name, e.segs)
    /\ c.rc = c.status
Under(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q
Agrees(c, e) ==
    LET R == <<Repos>> \o e.segs
        H == R \o <<Hooks>>
        hooks == {H \o <<PreHook>>, H \o <<PostHook>>}
        receive == e.verb = Receive
        Free(p) == e.gate /\ receive /\ p \in hooks
        behind == \E j \in 1..Len(H) : At(c.tree, SubSeq(H, 1, j)).k = "link"
    IN /\ e.must => Shells(c) # <<>>
       /\ IF Shells(c) # <<>> THEN e.may /\ Ran(c, e)
          ELSE c.rc # 0
       /\ Shells(c) # <<>> /\ receive =>
            /\ \A p \in hooks : At(c.post, p).k = "link" /\ At(c.post, p).t = c.self.v
            /\ At(c.post, R).s = "dir"
       (* git is asked only to make this repository *)
       /\ \A i \in 1..Len(Gits(c)) :
            LET a == Gits(c)[i].argv
            IN e.gate /\ receive /\ At(c.tree, R).s # "dir" /\ Len(a) >= 2 /\ a[1] = T("init") /\ \E j \in 2..Len(a) : a[j] = T("--bare")
               /\ Names2(c, a[Len(a)], e.segs)
       (* nothing else is changed *)
       /\ \A i \in 1..Len(c.tree) : At(c.post, c.tree[i].p) = c.tree[i] \/ Free(c.tree[i].p) \/ behind
       /\ \A i \in 1..Len(c.post) :
            \/ At(c.tree, c.post[i].p) = c.post[i] \/ behind
            \/ /\ e.gate /\ receive
               /\ IF At(c.tree, R).s = "none" THEN Under(c.post[i].p, R) \/ Under(R, c.post[i].p)
                  ELSE c.post[i].p = H \/ c.post[i].p \in hooks
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
