----------------------------- MODULE TracePrint -----------------------------
(* Executions of blogc -p NAME, judged by Variables and Loader.             *)
EXTENDS Variables, Loader, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

Expected(c) ==
    LET l == Select(c.global, c.sources)
        loc == IF c.listing \/ l.sel = <<>> THEN <<>> ELSE l.sel[1]
        x == Resolve([global |-> l.global, local |-> loc, loop |-> [on |-> FALSE]], c.name)
    IN IF ~l.ok THEN [rc |-> 1, out |-> <<>>]
       ELSE IF x.ok THEN [rc |-> 0, out |-> Append(x.v, NL)]
       ELSE [rc |-> 78, out |-> <<>>]
Agrees(c, e) == c.rc = e.rc /\ c.out = e.out /\ (e.rc # 0 => c.err)

VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
