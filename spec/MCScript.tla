------------------------------ MODULE MCScript ------------------------------
(***************************************************************************)
(* What clients do, one step after the other, the server being given the   *)
(* time to settle after each: the scripts that are replayed on the real    *)
(* server.  (Names of clients are in order of their connections.)          *)
(***************************************************************************)
EXTENDS Server, Json, TLC
CONSTANTS Clients, MaxSlots, MaxSteps, Every
VARIABLES conns, cl, script, slots, bigs
vars == <<conns, cl, script, slots, bigs>>
Init == /\ conns = <<>> /\ script = <<>> /\ slots \in 1..MaxSlots
        /\ bigs \in {b \in SUBSET Clients : Cardinality(b) < 3}
        /\ cl = [c \in Clients |-> Fresh(c \in bigs)]
Step == \E c \in Clients : \E k \in Kinds :
    /\ Len(script) < MaxSteps
    /\ Can(k, c, conns, cl)
    /\ k \in {"conn", "all"} => c = Len(conns) + 1
    (* there is nothing to do for those that are finished *)
    /\ c \notin Settle(conns, cl, slots)
    /\ conns' = Conns(k, c, conns) /\ cl' = [cl EXCEPT ![c] = Changed(k, @)]
    /\ script' = Append(script, [k |-> k, c |-> c, done |-> SetToSortSeq(Settle(conns', cl', slots), LAMBDA x, y : x < y)])
    /\ UNCHANGED <<slots, bigs>>
Next == Step
Spec == Init /\ [][Next]_vars
(* (what is finished remains so, and somebody is finished only by a step) *)
Hash == FoldLeft(LAMBDA a, x : (a * 7 + x.c * 3 + Len(x.done) + (CASE x.k = "conn" -> 1 [] x.k = "all" -> 2 [] x.k = "part" -> 4 [] x.k = "rest" -> 5 [] x.k = "eof" -> 6 [] x.k = "drop" -> 8 [] OTHER -> 9)) % 10007, slots, script)
Show == (Len(script) = MaxSteps \/ (script # <<>> /\ ~ENABLED Step)) /\ Hash % Every = 0
           => PrintT("CASE " \o ToJson([script |-> script, slots |-> slots, bigs |-> SetToSortSeq(bigs, LAMBDA x, y : x < y)]))
Grows == \A i \in 1..Len(script) : \A j \in 1..i : \A d \in 1..Len(script[j].done) :
            \E e \in 1..Len(script[i].done) : script[i].done[e] = script[j].done[d]
Limit == Cardinality({c \in Clients : ~Finishes(cl[c]) /\ \E i \in 1..Len(conns) : conns[i] = c}) < slots
            => \A i \in 1..Len(conns) : Finishes(cl[conns[i]]) => conns[i] \in Settle(conns, cl, slots)
=============================================================================
