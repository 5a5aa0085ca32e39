---------------------------- MODULE TraceSource ----------------------------
(* Executions of blogc on a source, judged by Source.                       *)
EXTENDS Source, Utf8, Findings, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: src, file (its name), depth ([ok, v]: the global maximum depth),
   names (of the variables that are shown), and observed: ok, shown
   ([ok, v] for each name), err *)
HashLine(s) == \E l \in Elems(Lines(s)) : l.t # <<>> /\ Run(l.t, 35) = Len(l.t)
HasHash(s) == \E i \in 1..Len(s) : s[i] = 35
Answer(c, text, dev) ==
    LET g == IF c.depth.ok THEN <<<<NMaxDepth, c.depth.v>>>> ELSE <<>>
        p == ParseSource(text, IF c.depth.ok THEN StrToL(c.depth.v) ELSE -1, dev)
        env == Put(p.env, T("FILENAME"), FileName(c.file))
        Show(n) == IF Defined(env, n) THEN [ok |-> TRUE, v |-> Value(env, n)]
                   ELSE IF Defined(g, n) THEN [ok |-> TRUE, v |-> Value(g, n)] ELSE Unset
    IN [ok |-> p.ok, shown |-> IF p.ok THEN [i \in 1..Len(c.names) |-> Show(c.names[i])] ELSE <<>>]
Expected(c) ==
    LET r == ReadText(c.src)
        a == Answer(c, r.text, FALSE)
        observed == [ok |-> c.ok, shown |-> c.shown]
        dev == r.ok /\ Known("hash-line-joins") /\ a # observed /\ HasHash(r.text) /\ Answer(c, r.text, TRUE) = observed
    IN [ok |-> r.ok /\ a.ok, shown |-> IF r.ok THEN a.shown ELSE <<>>, dev |-> dev]
Agrees(c, e) ==
    /\ e.dev \/ (c.ok = e.ok /\ c.shown = e.shown)
    /\ ~c.ok => c.err

VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
