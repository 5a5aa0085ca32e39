--------------------------- MODULE TraceTemplate ---------------------------
(* Executions of blogc with a template, judged by Template and Loader.     *)
EXTENDS Template, Loader, Utf8, Findings, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: tmpl, listing, global, sources (assocs), entries ([ok, env]),
   before: what the output file had; and observed: ok (exit status 0), out
   (the page, or what the output file has afterwards), err (something was
   said on standard error), extra (something was written elsewhere) *)
Expected(c) ==
    LET l == Select(c.global, c.sources)
        r == ReadText(c.tmpl)
        p == ParseTemplate(r.text)
        ctx == [listing |-> c.listing, global |-> l.global, sources |-> l.sel, entries |-> c.entries,
                leak |-> FALSE]
    IN IF l.ok /\ r.ok /\ p.ok
       THEN [ok |-> TRUE, out |-> Render(ctx, p.toks),
             leak |-> Known("skipped-block-scope") /\ Render([ctx EXCEPT !.leak = TRUE], p.toks) = c.out]
       ELSE [ok |-> FALSE, out |-> c.before, leak |-> FALSE]
Agrees(c, e) ==
    /\ c.ok = e.ok
    /\ c.out = e.out \/ e.leak
    /\ ~e.ok => c.err
    /\ ~c.extra

VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
