---------------------------- MODULE TraceFaults ----------------------------
(* Runs of blogc and blogc-make with faults, judged by Faults.              *)
EXTENDS Faults, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: plan, f, any; pre, post: the files <<path, text>> before and after;
   observed: ok, err (an error was reported) *)
Expected(c) == [first |-> IF c.any THEN -1 ELSE FirstFault(c.f, c.plan)]
Agrees(c, e) ==
    LET paths == {c.pre[i][1] : i \in 1..Len(c.pre)} \cup {c.post[i][1] : i \in 1..Len(c.post)} \cup {c.plan[i].out : i \in 1..Len(c.plan)}
    IN /\ ~c.ok => c.err
       /\ \E b \in IF c.any THEN AnyEnds(c.pre, c.plan) ELSE AllEnds(c.pre, c.f, c.plan) :
            /\ (b.st = "ok") = c.ok
            /\ \A p \in paths : Look(b.files, p) = Look(c.post, p)
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
