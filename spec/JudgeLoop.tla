----------------------------- MODULE JudgeLoop -----------------------------
(***************************************************************************)
(* Trace validation of recorded cases.  A case is one observed execution   *)
(* of the real program with everything that was given to it.  Expected     *)
(* (from the instantiating module) is what the specification computes from *)
(* the inputs, Agrees compares it with what was observed.  The state is a  *)
(* cursor per lane, so that TLC's workers judge lanes in parallel; a       *)
(* rejected case is reported with what was expected.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Cases, Expected(_), Agrees(_, _)
VARIABLES lane, pos, bad
vars == <<lane, pos, bad>>

Lanes == 32
Init == lane \in 0..(Lanes - 1) /\ pos = 0 /\ bad = FALSE
Cursor == lane + 1 + pos * Lanes

Next == /\ Cursor <= Len(Cases)
        /\ LET c == Cases[Cursor]
               e == TLCEval(Expected(c))
               a == Agrees(c, e)
           IN /\ bad' = ~a
              /\ (~a => PrintT("REJECT " \o ToJson([id |-> c.id, expected |-> e])))
        /\ pos' = pos + 1 /\ lane' = lane
Spec == Init /\ [][Next]_vars
=============================================================================
