------------------------------ MODULE MCSetUp ------------------------------
(* Setting up a repository, whatever is there, with failures anywhere.      *)
EXTENDS GitShell, Json
VARIABLES s, first, fails, dead
vars == <<s, first, fails, dead>>
Kinds == Places \ {"dirlink", "self"}
Start == [repo : Places \ {"self"}, hooks : Places \ {"self"}, pre : Places \ {"dirlink"}, post : Places \ {"dirlink"}, st : {"repo"}]
Sensible(x) == (x.repo \in {"none", "file", "link"} => x.hooks = "none") /\ (x.hooks \in {"none", "file", "link"} => x.pre = "none" /\ x.post = "none")
Init == /\ s \in {x \in Start : Sensible(x)}
        /\ fails \in {{}, {"init"}, {"mkdir"}, {"link"}, {"link2"}}
        /\ first = s /\ dead = FALSE
Done == s.st \in {"refused", "executed"} \/ dead
Step == ~Done /\ s' = SetUpStep(s, fails) /\ UNCHANGED <<first, fails, dead>>
(* killed, and the next push *)
Die == ~Done /\ dead' = TRUE /\ UNCHANGED <<s, first, fails>>
Again == dead /\ dead' = FALSE /\ fails' = {} /\ s' = [s EXCEPT !.st = "repo"] /\ UNCHANGED first
Next == Step \/ Die \/ Again
Spec == Init /\ [][Next]_vars
Ours == s.st = "executed" => IsDir(s.repo) /\ IsDir(s.hooks) /\ s.pre = "self" /\ s.post = "self"
(* it is refused only when it cannot be set up *)
Must == s.st = "refused" => fails # {} \/ ~Feasible(first.repo, first.hooks, first.pre, first.post)
Can == s.st = "executed" => Feasible(first.repo, first.hooks, first.pre, first.post)
Show == (s = first /\ fails \in {{}, {"init"}} /\ ~dead /\ (fails = {"init"} => s.repo = "none"))
          => PrintT("CASE " \o ToJson([s |-> s, init |-> fails = {"init"}]))
=============================================================================
