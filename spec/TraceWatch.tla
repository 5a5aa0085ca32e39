----------------------------- MODULE TraceWatch -----------------------------
(* Watchers that were left alone after a history of edits, judged by Site   *)
(* and Build: the outputs of the final state are what a build of it makes.  *)
EXTENDS Build, Utf8, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: cfg, root, files, copies: the final state, as in TraceSite; built:
   whether a build of it succeeds; fresh: what it makes, tree: what is there,
   sequences of <<path, content>>, relative to the output directory; inputs,
   wanted: the inputs, and what was written last; alive: the watcher was still
   there, ended: it ended when interrupted; temps: of temporary files *)
World(c) == [root |-> c.root, out |-> T("_build"), files |-> c.files, dev |-> FALSE, copies |-> c.copies]
Expected(c) ==
    LET r == ReadText(c.cfg)
        S == TLCEval(Settings(r.text))
        o == AllOutputs(S, World(c))
    IN IF ~r.ok \/ ~S.ok \/ ~o.ok THEN [ok |-> FALSE, outs |-> {}]
       ELSE [ok |-> TRUE, outs |-> {Norm(o.outs[i].out) : i \in 1..Len(o.outs)}]
Pair(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Agrees(c, e) ==
    /\ c.alive /\ c.ended
    /\ Pair(c.inputs) = Pair(c.wanted)
    /\ c.temps <= 1
    /\ c.built => /\ e.ok
                  /\ {T("_build/") \o c.fresh[i][1] : i \in 1..Len(c.fresh)} = e.outs
                  /\ Pair(c.fresh) \subseteq Pair(c.tree)
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
