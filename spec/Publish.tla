------------------------------ MODULE Publish ------------------------------
(***************************************************************************)
(* The site as a whole: Site says what is compiled, Cli what comes out of  *)
(* it.  Pages is the content of every output, as a function of the         *)
(* settings and of the files: <<path, content>>, by absolute path.         *)
(***************************************************************************)
EXTENDS Build
C == INSTANCE Cli

(* the variables of a file (of those that can be parsed) *)
Rel(fs) == [i \in 1..Len(fs) |-> <<Tail(fs[i][1]), fs[i][2]>>]
SourcesOf(S, root) ==
    (IF S.posts.ok THEN [i \in 1..Len(S.posts.v) |-> PostFile(S, root, S.posts.v[i])] ELSE <<>>)
    \o (IF S.pages.ok THEN [i \in 1..Len(S.pages.v) |-> PageFile(S, root, S.pages.v[i])] ELSE <<>>)
    \o (IF EntryFile(S, root).ok THEN <<EntryFile(S, root).v>> ELSE <<>>)
(* for every path that is a source what it is: [ok, env] *)
Reading(S, root, rel) ==
    LET depth == C!DepthOf(S.global)
        ps == SourcesOf(S, root)
    IN [i \in 1..Len(ps) |-> <<ps[i], C!ReadSource(rel, ps[i], depth, FALSE)>>]
CopiesOf(S, root, fs) ==
    LET Under(c) == SelectSeq(fs, LAMBDA f : StartsWith(f[1], Abs(root, c) \o <<47>>))
        Name(f) == SubSeq(f[1], Len(root) + 2, Len(f[1]))
    IN IF ~S.copy.ok THEN <<>>
       ELSE [i \in 1..Len(S.copy.v) |->
               IF Defined(fs, Abs(root, S.copy.v[i])) THEN <<S.copy.v[i], <<S.copy.v[i]>>>>
               ELSE LET u == Under(S.copy.v[i]) IN <<S.copy.v[i], [k \in 1..Len(u) |-> Name(u[k])]>>]

Generated == T("/generated feed template")
(* the state of a site: fs are the files that are not outputs *)
Site0(S, root, outdir, dev, fs) ==
    LET rel == TLCEval(Rel(fs))
        rd == TLCEval(Reading(S, root, rel))
        good == TLCEval(SelectSeq(rd, LAMBDA x : x[2].ok))
        copies == TLCEval(CopiesOf(S, root, fs))
    IN [S |-> S, read |-> rd, rel |-> Append(rel, <<Tail(Generated), AtomTemplate(S)>>), fs |-> fs,
        W |-> [root |-> root, out |-> outdir, files |-> TLCEval([i \in 1..Len(good) |-> <<good[i][1], good[i][2].env>>]), dev |-> dev,
               copies |-> copies]]
(* what an output holds: kind "page" or "error" *)
PageOf(X, o) ==
    LET At(p) == Value(X.read, p)
        es == IF o.entry.ok THEN <<o.entry.v>> ELSE <<>>
        a == [defs |-> Effective(X.S, o, X.W.dev), entries |-> es, listing |-> o.listing, print |-> C!Unset,
              tmpl |-> C!Given(IF o.template.ok THEN o.template.v ELSE Generated)]
    IN IF o.copy
       THEN IF Defined(X.fs, o.sources[1]) THEN [kind |-> "page", out |-> Value(X.fs, o.sources[1])] ELSE C!Nothing
       ELSE C!Compiled(TLCEval(a), TLCEval([i \in 1..Len(o.sources) |-> At(o.sources[i])]), TLCEval([i \in 1..Len(es) |-> At(es[i])]), X.rel)
(* the pages of some rules: ok, and <<path, page>> *)
Pages(X, rules) ==
    LET table == TLCEval(OutputTable(X.S, X.W))
        outs == TLCEval(FoldLeft(LAMBDA acc, r : acc \o Real(table[r].outs), <<>>, rules))
    IN [ok |-> \A r \in Elems(rules) : table[r].ok,
        pages |-> TLCEval([i \in 1..Len(outs) |-> <<Abs(X.W.root, outs[i].out), PageOf(X, outs[i])>>])]
=============================================================================
