------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* What a program may leave behind when something goes wrong.              *)
(*                                                                         *)
(* A run is a plan: a sequence of outputs [out, ins, text, size], where    *)
(* the text Gone means that the output is removed.  BuildSteps makes the   *)
(* next output, or fails at it because an input cannot be read, the output *)
(* cannot be written, or the child dies.                                   *)
(***************************************************************************)
EXTENDS Text

Gone == <<-1>>
Look(files, p) == IF Defined(files, p) THEN Value(files, p) ELSE Gone

(* f: the faults [unread: inputs that cannot be read, sealed: outputs that
   cannot be written, limit: of the size of a file (-1: none), child: the
   number of the output whose child dies (0: none)] *)
Fails(f, plan, i) ==
    \/ Elems(plan[i].ins) \cap Elems(f.unread) # {}
    \/ plan[i].out \in Elems(f.sealed)
    \/ f.limit >= 0 /\ plan[i].size > f.limit
    \/ f.child = i
BuildStart(pre) == [st |-> "run", i |-> 1, files |-> pre]
(* the failing output stays as it was, or is gone *)
BuildSteps(b, f, plan) ==
    IF b.i > Len(plan) THEN {[b EXCEPT !.st = "ok"]}
    ELSE IF Fails(f, plan, b.i)
         THEN {[b EXCEPT !.st = "failed"],
               [b EXCEPT !.st = "failed", !.files = Put(@, plan[b.i].out, Gone)]}
    ELSE {[b EXCEPT !.i = @ + 1, !.files = Put(@, plan[b.i].out, plan[b.i].text)]}
RECURSIVE BuildEnds(_, _, _)
BuildEnds(b, f, plan) ==
    IF b.st # "run" THEN {b} ELSE UNION {BuildEnds(x, f, plan) : x \in BuildSteps(b, f, plan)}
AllEnds(pre, f, plan) == BuildEnds(BuildStart(pre), f, plan)

(* the number of the first that fails, or 0 *)
FirstFault(f, plan) ==
    IF \E i \in 1..Len(plan) : Fails(f, plan, i)
    THEN CHOOSE i \in 1..Len(plan) : Fails(f, plan, i) /\ \A j \in 1..(i - 1) : ~Fails(f, plan, j)
    ELSE 0
NoFaults == [unread |-> <<>>, sealed |-> <<>>, limit |-> -1, child |-> 0]
(* when resources are short, anything may be the first to fail *)
AnyEnds(pre, plan) == UNION {AllEnds(pre, [NoFaults EXCEPT !.child = k], plan) : k \in 0..Len(plan)}
=============================================================================
