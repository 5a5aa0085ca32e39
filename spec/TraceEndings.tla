---------------------------- MODULE TraceEndings ----------------------------
(* Pairs of executions on the same source, with LF (a) and CR LF (b) line   *)
(* endings: the second shows the same with CR LF.                           *)
EXTENDS Text, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)
WithCr(s) == FoldLeft(LAMBDA x, c : IF c = 10 THEN x \o <<13, 10>> ELSE Append(x, c), <<>>, s)
Expected(c) == [ok |-> c.a.ok, shown |-> [i \in 1..Len(c.a.shown) |-> [c.a.shown[i] EXCEPT !.v = WithCr(@)]]]
Agrees(c, e) == c.b.ok = e.ok /\ c.b.shown = e.shown
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
