---------------------------- MODULE TracePublish ----------------------------
(* Recorded builds of whole sites with both programs, judged by Publish.   *)
EXTENDS Publish, Utf8, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: cfg, root, outdir ([ok, v]: environment), dev, args (rules), files
   (everything outside the output directory, <<path, content>>), pre (what is
   inside), and observed: ok, err, post, kept (nothing outside has changed) *)
Nil == [ok |-> FALSE, pages |-> <<>>]
Expected(c) ==
    LET r == ReadText(c.cfg)
        S == TLCEval(Settings(r.text))
        X == TLCEval(Site0(S, c.root, OutputDir(c.outdir), c.dev, c.files))
        p == TLCEval(Pages(X, RulesOf(c.args)))
    IN IF ~r.ok \/ ~S.ok THEN Nil
       ELSE [ok |-> p.ok /\ \A i \in 1..Len(p.pages) : p.pages[i][2].kind = "page", pages |-> p.pages]
(* a build that succeeds leaves every page as it is to be; one that does not, the
   old page (or none), where it did not get that far; nothing else changes *)
Agrees(c, e) ==
    LET mine == {e.pages[i][1] : i \in 1..Len(e.pages)}
        In(fs, p) == IF Defined(fs, p) THEN [has |-> TRUE, v |-> Value(fs, p)] ELSE [has |-> FALSE, v |-> <<>>]
        Now(p) == In(c.post, p)
        Then(p) == In(c.pre, p)
        Right(x) == x[2].kind = "page" /\ Now(x[1]) = [has |-> TRUE, v |-> x[2].out]
    IN /\ c.ok = e.ok
       /\ ~c.ok => c.err
       /\ c.kept
       /\ \A i \in 1..Len(e.pages) : Right(e.pages[i]) \/ (~e.ok /\ (Now(e.pages[i][1]) = Then(e.pages[i][1]) \/ ~Now(e.pages[i][1]).has))
       /\ SelectSeq(c.post, LAMBDA x : x[1] \notin mine) = SelectSeq(c.pre, LAMBDA x : x[1] \notin mine)
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
