------------------------------ MODULE MCWatch ------------------------------
(* All edits at all moments of a watcher.                                   *)
EXTENDS Watch, Json
CONSTANTS MaxEdits
UsesAB == <<{"a"}, {"a", "b"}, {"b"}>>
VARIABLES in, out, clock, w, hist, idles, steps
vars == <<in, out, clock, w, hist, idles, steps>>
Init == /\ in = [f \in Inputs |-> [t |-> 1, v |-> 0, ok |-> TRUE]]
        /\ out = [k \in 1..N |-> Missing]
        /\ clock = 1 /\ w = Start(in, clock) /\ hist = <<>> /\ idles = 0 /\ steps = 0
(* passes that were completed after the last edit *)
Watcher == LET n == Next1(w, in, out, clock)
           IN /\ w' = n[1] /\ out' = n[2] /\ clock' = n[3]
              /\ idles' = IF w.pc = "idle" /\ idles < 4 THEN idles + 1 ELSE idles
              /\ steps' = IF w.pc = "idle" THEN 0 ELSE steps
              /\ UNCHANGED <<in, hist>>
Edit(f, ok) ==
    /\ Len(hist) < MaxEdits /\ idles < 3
    /\ clock' = clock + 1
    /\ in' = [in EXCEPT ![f] = [t |-> clock', v |-> @.v + 1, ok |-> ok]]
    /\ hist' = Append(hist, [f |-> f, ok |-> ok, pc |-> w.pc, k |-> w.k, wait |-> idles])
    /\ idles' = 0
    /\ UNCHANGED <<w, out, steps>>
(* the last edit repairs *)
Next == Watcher \/ \E f \in Inputs, ok \in BOOLEAN : Edit(f, ok)
Spec == Init /\ [][Next]_vars /\ WF_vars(Watcher)

(* two passes after the last edit everything is as it should be *)
Settled == idles >= 2 /\ Usable(in) => Current(in, out)
(* and stays so *)
Converges == <>[](Usable(in) => Current(in, out))
(* nothing that is up to date is made again, except once for new settings *)
Quiet == idles >= 3 /\ Usable(in) => w.pc # "compile"
Order == clock >= w.since /\ \A k \in 1..N : out[k].t <= clock
Show == Len(hist) = MaxEdits /\ idles = 0 /\ hist[MaxEdits].pc = w.pc /\ in[hist[MaxEdits].f].t = clock /\ Usable(in) => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
