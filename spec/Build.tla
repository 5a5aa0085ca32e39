------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* Running blogc-make in a file system.  A file system is a sequence of    *)
(* <<path, [c: content, s, n: modification time]>>.  RunRules gives what   *)
(* a run does: the compilations, in order of the rules, what is copied,    *)
(* what is removed, and whether it succeeds.                               *)
(***************************************************************************)
EXTENDS Site

Has(fs, p) == Defined(fs, p)
(* strictly newer *)
Newer(a, b) == a.s > b.s \/ (a.s = b.s /\ a.n > b.n)

(* an output is fresh if it exists and none of its inputs is missing or newer.
   What was made during this run is newer than every input *)
Fresh(fs, made, x, root, blogcfile) ==
    LET out == Abs(root, x.out)
        ins == Inputs(x, blogcfile)
    IN /\ out \in made \/ Has(fs, out)
       /\ \A i \in ins : Has(fs, i)
       /\ out \in made \/ \A i \in ins : ~Newer(Value(fs, i), Value(fs, out))

(* what a compilation looks like from outside *)
CallOf(S, o, W) ==
    LET env == Effective(S, o, W.dev)
    IN [vars |-> {<<x[1], x[2]>> : x \in Elems(env)}, listing |-> o.listing, entry |-> o.entry,
        template |-> o.template.v,
        tcontent |-> IF o.template.ok THEN <<>> ELSE AtomTemplate(S),
        out |-> Abs(W.root, o.out), sources |-> Join(o.sources, <<10>>), lc |-> S.locale]

CleanRule == T("clean")
AllRule == T("all")
HelperRules == {T("atom_dump")}

(* R is the run: fs (the files before), blogcfile, stopAt (the compilation that
   fails, 0: none), makes (for each compilation whether it wrote its output).
   a: [st, calls, copied, made, gone] *)
Compile(a, todo, S, W, R) ==
    LET k == Len(a.calls)
        n == IF R.stopAt > k /\ R.stopAt <= k + Len(todo) THEN R.stopAt - k ELSE Len(todo)
        fails == n > 0 /\ R.stopAt = k + n
        wrote == {i \in 1..n : k + i <= Len(R.makes) /\ R.makes[k + i]}
    IN [a EXCEPT !.st = IF fails THEN "fail" ELSE @,
                 !.calls = @ \o [i \in 1..n |-> CallOf(S, todo[i], W)],
                 !.made = @ \cup {Abs(W.root, todo[i].out) : i \in wrote},
                 !.failed = IF fails THEN {Abs(W.root, todo[n].out)} ELSE @]
Copy(a, todo, S, W, R) ==
    LET stop == {i \in 1..Len(todo) : ~Has(R.fs, todo[i].sources[1])}
        n == IF stop = {} THEN Len(todo) ELSE (CHOOSE i \in stop : \A j \in stop : i <= j) - 1
    IN [a EXCEPT !.st = IF stop = {} THEN @ ELSE "fail",
                 !.copied = @ \cup {<<Abs(W.root, todo[i].out), Value(R.fs, todo[i].sources[1]).c>> : i \in 1..n},
                 !.made = @ \cup {Abs(W.root, todo[i].out) : i \in 1..n}]
OutputTable(S, W) == [r \in Elems(RuleNames) |-> Outputs(S, W, r)]
AllIn(table) == FoldLeft(LAMBDA acc, r : LET o == table[r] IN [ok |-> acc.ok /\ o.ok, outs |-> acc.outs \o Real(o.outs)],
                             [ok |-> TRUE, outs |-> <<>>], RuleNames)
AllOutputs(S, W) == AllIn(OutputTable(S, W))
Clean(a, S, W, R, table) ==
    LET all == TLCEval(AllIn(table))
        there == {Abs(W.root, all.outs[i].out) : i \in 1..Len(all.outs)} \cap ({R.fs[i][1] : i \in 1..Len(R.fs)} \cup a.made)
    IN [a EXCEPT !.st = IF all.ok THEN @ ELSE "fail", !.gone = @ \cup there, !.made = @ \ there,
                 !.copied = {x \in @ : x[1] \notin there}]
RunRule(a, rule, S, W, R, table) ==
    IF a.st # "run" THEN a
    ELSE IF rule = CleanRule THEN Clean(a, S, W, R, table)
    ELSE IF rule \in HelperRules THEN a
    ELSE IF rule \notin Elems(RuleNames) THEN [a EXCEPT !.st = "fail"]
    ELSE LET o == TLCEval(table[rule])
             fs == SelectSeq(R.fs, LAMBDA x : x[1] \notin a.gone)
             todo == SelectSeq(Real(o.outs), LAMBDA x : ~Fresh(fs, a.made, x, W.root, R.blogcfile))
         IN IF ~o.ok THEN [a EXCEPT !.st = "fail"]
            ELSE IF rule = L_copy THEN Copy(a, todo, S, W, R) ELSE Compile(a, todo, S, W, R)

(* the rules of a command line: "all" is every build rule *)
RulesOf(args) ==
    LET R(x) == IF RuleOf(x) = AllRule THEN RuleNames ELSE <<RuleOf(x)>>
    IN IF args = <<>> THEN RuleNames ELSE FoldLeft(LAMBDA acc, x : acc \o R(x), <<>>, args)
RunTable(args, S, W, R, table) ==
    FoldLeft(LAMBDA acc, x : RunRule(acc, x, S, W, R, table),
             [st |-> "run", calls |-> <<>>, copied |-> {}, made |-> {}, gone |-> {}, failed |-> {}], RulesOf(args))

RunRules(args, S, W, R) == RunTable(args, S, W, R, OutputTable(S, W))

(* directories that are left after files were removed: those above them that
   became empty are removed, up to the output directory *)
Below(p, d) == StartsWith(p, d \o <<47>>)
KeptDirs(dirs, out, before, gone) ==
    LET candidates == {d \in dirs : (d = out \/ Below(d, out)) /\ \E g \in gone : Below(g, d)}
        Empty(d) == /\ \A p \in before \ gone : ~Below(p, d)
                    /\ \A e \in dirs : Below(e, d) => e \in candidates
    IN {d \in dirs : ~(d \in candidates /\ Empty(d))}
=============================================================================
