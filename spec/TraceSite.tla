----------------------------- MODULE TraceSite -----------------------------
(* Recorded runs of blogc-make, judged by Build.                           *)
EXTENDS Build, Utf8, Findings, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: cfg (the settings file), blogcfile (its path), args (rules), outdir
   ([ok, v]: environment), dev, root, make (started by make), files (sources:
   path, variables), copies (entry, files below it), pre (all the files), dirs
   (all the directories), stop (the compilation that fails, or 0), and observed:
   ok, calls (compilations), post (all the files), postdirs *)

World(c) == [root |-> c.root, out |-> OutputDir(c.outdir), files |-> c.files, dev |-> c.dev, copies |-> c.copies]
RunOf(c) == [fs |-> c.pre, blogcfile |-> c.blogcfile, stopAt |-> c.stop, makes |-> [i \in 1..Len(c.calls) |-> c.calls[i].made]]

Seen(k) ==
    LET env == FoldLeft(LAMBDA e, x : Put(e, x[1], x[2]), <<>>, k.vars)
        tmp == k.tcontent.ok
    IN [vars |-> {<<x[1], x[2]>> : x \in Elems(env)}, listing |-> k.listing, entry |-> [k.entry EXCEPT !.v = Norm(@)],
        template |-> IF tmp THEN <<>> ELSE Norm(k.template), tcontent |-> IF tmp THEN k.tcontent.v ELSE <<>>,
        out |-> Norm(k.out), sources |-> Join([i \in 1..Len(k.sources) |-> Norm(k.sources[i])], <<10>>), lc |-> k.lc]

(* the variables that a call for the value of a variable may get *)
CallVariables(S, W) ==
    LET o == AllOutputs(S, W).outs
    IN Elems(Common(S)) \cup Elems(Dev(W.dev)) \cup UNION {Elems(o[i].vars) : i \in 1..Len(o)}
Nothing == [ok |-> FALSE, calls |-> <<>>, copied |-> {}, made |-> {}, gone |-> {}, failed |-> {}, dump |-> <<>>, known |-> {}]
Expected(c) ==
    LET r == ReadText(c.cfg)
        S == TLCEval(Settings(r.text))
        a == RunRules(c.args, S, World(c), RunOf(c))
    IN IF ~r.ok \/ ~S.ok \/ (S.from_make /\ ~c.make) THEN Nothing
       ELSE [ok |-> a.st = "run", calls |-> a.calls, copied |-> a.copied, made |-> a.made, gone |-> a.gone, failed |-> a.failed,
             dump |-> IF c.dump.ok THEN AtomTemplate(S) ELSE <<>>,
             known |-> IF c.prints = <<>> THEN {} ELSE CallVariables(S, World(c))]

(* every compilation once, whatever the order of independent ones *)
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \/ a = b
                    \/ \A x \in Elems(a) \cup Elems(b) : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
Paths(fs) == {fs[i][1] : i \in 1..Len(fs)}
Except(fs, t) == {fs[i] : i \in {i \in 1..Len(fs) : fs[i][1] \notin t}}
(* what an output that failed is like: as it was, or gone *)
Agrees(c, e) ==
    LET touched == e.made \cup e.gone \cup e.failed
        out == Abs(c.root, OutputDir(c.outdir))
    IN /\ c.ok = e.ok
       /\ SameBag([i \in 1..Len(c.calls) |-> Seen(c.calls[i])], e.calls)
       /\ ~c.ok => c.err
       /\ \A i \in 1..Len(c.prints) : e.ok => \A x \in Elems(c.prints[i].vars) : <<x[1], x[2]>> \in e.known
       /\ c.dump.ok => c.dump.v = e.dump
       /\ Except(c.post, touched) = Except(c.pre, touched)
       /\ e.made \subseteq Paths(c.post)
       /\ \A x \in e.copied : Defined(c.post, x[1]) /\ Value(c.post, x[1]).c = x[2]
       /\ (e.gone \ e.made) \cap Paths(c.post) = {}
       /\ \A p \in e.failed \ e.made :
             \/ ~Defined(c.post, p)
             \/ Defined(c.pre, p) /\ Value(c.post, p) = Value(c.pre, p)
             \/ c.killed /\ Known("killed-while-writing")     \* it was being written when both programs were killed
       \* only cleaning removes directories
       /\ IF c.args = <<CleanRule>>
          THEN Elems(c.postdirs) = KeptDirs(Elems(c.dirs), out, Paths(c.pre), e.gone)
          ELSE IF CleanRule \in {RuleOf(c.args[i]) : i \in 1..Len(c.args)}
          THEN {d \in Elems(c.dirs) : d # out /\ ~Below(d, out)} \subseteq Elems(c.postdirs)
          ELSE Elems(c.dirs) \subseteq Elems(c.postdirs)
       \* the same tree as another one
       /\ c.want.ok => {<<c.post[i][1], c.post[i][2].c>> : i \in 1..Len(c.post)} = Elems(c.want.v)

VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
