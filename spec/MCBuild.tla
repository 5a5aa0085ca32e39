------------------------------ MODULE MCBuild ------------------------------
(***************************************************************************)
(* Histories of a site: inputs are edited (at once, or within the same     *)
(* tick of the clock as what was there before), outputs get lost, the site *)
(* is built (and the build may fail or be killed at any compilation) and   *)
(* cleaned.  The time of a file is the tick in which it was written; its   *)
(* content names the versions of the inputs that it was made from.         *)
(***************************************************************************)
EXTENDS Build, Json, TLC
CONSTANTS Depth, PrintAt

Root == T("/r")
Out == T("_b")
Cfg == Root \o T("/blogcfile")
SA == [ok |-> TRUE, global |-> <<>>, content_dir |-> T("c"), template_dir |-> T("t"), atom_template |-> [ok |-> TRUE, v |-> T("a")],
       main_template |-> T("m"), source_ext |-> T(".s"), listing_entry |-> [ok |-> TRUE, v |-> T("e")], copy |-> [ok |-> TRUE, v |-> <<T("d")>>],
       date_format |-> T("%Y"), locale |-> [ok |-> FALSE, v |-> <<>>], from_make |-> FALSE, atom_ext |-> T(".xml"), pagination_prefix |-> T("page"),
       pages |-> [ok |-> TRUE, v |-> <<T("about")>>], posts |-> [ok |-> TRUE, v |-> <<T("p"), T("q")>>], tags |-> [ok |-> FALSE, v |-> <<>>],
       per_page |-> T("1"), atom_per_page |-> T("1"), html_order |-> T("DESC"), atom_order |-> T("DESC"), sort |-> FALSE, html_ext |-> T(".h"),
       post_prefix |-> T("po"), tag_prefix |-> T("tag"), blog_prefix |-> <<>>, index_prefix |-> <<>>, atom_prefix |-> T("atom")]
P(i) == PostFile(SA, Root, SA.posts.v[i])
W == [root |-> Root, out |-> Out, files |-> <<<<P(1), <<>>>>, <<P(2), <<>>>>>>, dev |-> FALSE, copies |-> <<<<T("d"), <<T("d/x")>>>>>>]
(* evaluated once: TLC does not keep definitions that use recursive operators *)
ASSUME TLCSet(1, TLCEval(OutputTable(SA, W)))
Table == TLCGet(1)
ASSUME TLCSet(2, TLCEval(AllIn(Table).outs))
Everything == TLCGet(2)
N == Len(Everything)
Compiled == SelectSeq(Everything, LAMBDA o : ~o.copy)
ASSUME TLCSet(3, TLCEval([k \in 1..N |-> Abs(Root, Everything[k].out)]))
OutPath == TLCGet(3)
ASSUME TLCSet(4, TLCEval([k \in 1..N |-> Inputs(Everything[k], Cfg)]))
InsOf == TLCGet(4)
(* the inputs that can be edited, by number *)
ASSUME TLCSet(5, TLCEval(<<Cfg, MainTemplate(SA, Root), EntryFile(SA, Root).v, AtomTemplateFile(SA, Root).v, P(1), P(2), PageFile(SA, Root, T("about")), Root \o T("/d/x")>>))
Ins == TLCGet(5)
ASSUME UNION {InsOf[k] : k \in 1..N} = Elems(Ins)

VARIABLES fs, clock, hist, last, sharp, torn
(* fs: [path -> [s, n, c]] of what exists; sharp: no edit happened within the
   tick of an older file; torn: outputs that were cut off by killing both programs;
   last: what the last run did, if that was the last action *)
vars == <<fs, clock, hist, last, sharp, torn>>
Rest == [st |-> "none", calls |-> {}, pre |-> <<>>]
File(v, t) == [c |-> v, s |-> t, n |-> 0]
Init == /\ fs = [p \in Elems(Ins) |-> File(0, 0)]
        /\ clock = 0 /\ hist = <<>> /\ last = Rest /\ sharp = TRUE /\ torn = {}
AsSeq(f) == LET ps == SetToSeq(DOMAIN f) IN [i \in 1..Len(ps) |-> <<ps[i], f[ps[i]]>>]
MadeFrom(k) == [i \in InsOf[k] |-> fs[i].c]
Whole(f, k) == OutPath[k] \in DOMAIN f /\ f[OutPath[k]].c = [i \in InsOf[k] |-> f[i].c]
Log(x) == hist' = Append(hist, x)
Is(k) == Len(hist) < Depth /\ (hist # <<>> \/ k = "build")

Edit(i, dt) ==
    /\ Is("edit")
    /\ clock' = clock + dt
    /\ fs' = [fs EXCEPT ![Ins[i]] = File(@.c + 1, clock')]
    /\ sharp' = (sharp /\ dt > 0)
    /\ Log(<<"edit", i, dt>>) /\ last' = Rest /\ UNCHANGED torn
(* an input gets an old time (a file that was moved here): only its content can tell *)
Lose(k) ==
    /\ Is("remove") /\ OutPath[k] \in DOMAIN fs
    /\ fs' = [p \in DOMAIN fs \ {OutPath[k]} |-> fs[p]]
    /\ Log(<<"remove", k, 0>>) /\ last' = Rest /\ torn' = torn \ {OutPath[k]} /\ UNCHANGED <<clock, sharp>>
Number(p) == CHOOSE k \in 1..N : OutPath[k] = p
(* a run: stop is the compilation that fails, and how *)
BuildRun(stop, how) ==
    /\ Is("build")
    /\ LET seq == AsSeq(fs)
           a == TLCEval(RunTable(<<>>, SA, W, [fs |-> seq, blogcfile |-> Cfg, stopAt |-> stop,
                                       makes |-> [i \in 1..20 |-> i # stop \/ how = "after"]], Table))
           made == {Number(p) : p \in a.made}
           t == clock + 1
           base == [p \in DOMAIN fs \cup a.made |-> IF p \in a.made THEN File(MadeFrom(Number(p)), t) ELSE fs[p]]
       IN /\ stop > 0 => Len(a.calls) = stop
          /\ clock' = t
          /\ fs' = CASE stop > 0 /\ how = "gone" -> [p \in DOMAIN base \ a.failed |-> base[p]]
                     [] stop > 0 /\ how = "torn" -> [p \in DOMAIN base \cup a.failed |-> IF p \in a.failed THEN File("torn", t) ELSE base[p]]
                     [] OTHER -> base
          /\ torn' = IF stop > 0 /\ how = "torn" THEN torn \cup a.failed ELSE torn \ (a.made \cup a.failed)
          /\ last' = [st |-> a.st, calls |-> {Number(x.out) : x \in Elems(a.calls)} \cup {Number(x[1]) : x \in a.copied}, pre |-> fs]
          /\ Log(<<"build", stop, how>>)
    /\ UNCHANGED sharp
CleanUp ==
    /\ Is("clean")
    /\ LET a == RunTable(<<CleanRule>>, SA, W, [fs |-> AsSeq(fs), blogcfile |-> Cfg, stopAt |-> 0, makes |-> <<>>], Table)
       IN fs' = [p \in DOMAIN fs \ a.gone |-> fs[p]]
    /\ Log(<<"clean", 0, 0>>) /\ last' = Rest /\ torn' = {} /\ UNCHANGED <<clock, sharp>>
Next == \/ \E i \in 1..Len(Ins), dt \in {0, 1} : Edit(i, dt)
        \/ \E k \in {1, 2, 4, N} : Lose(k)
        \/ BuildRun(0, "none")
        \/ \E stop \in {1, 2, 5}, how \in {"kept", "gone", "after", "torn"} : BuildRun(stop, how)
        \/ CleanUp
Spec == Init /\ [][Next]_vars

(* what is stale: stated on times directly *)
StaleIn(f, k) == OutPath[k] \notin DOMAIN f \/ \E i \in InsOf[k] : f[i].s > f[OutPath[k]].s
(* a build that succeeds does exactly what is stale *)
Exactly == last.st = "run" => last.calls = {k \in 1..N : StaleIn(last.pre, k)}
(* one that fails does nothing else *)
NoMore == last.st = "fail" => last.calls \subseteq {k \in 1..N : StaleIn(last.pre, k)}
NothingStale == last.st = "run" => \A k \in 1..N : ~StaleIn(fs, k)
(* and if edits advance the clock every output is made from what is there now *)
Current == last.st = "run" /\ sharp /\ torn = {} => \A k \in 1..N : Whole(fs, k)
(* what a torn output can cost: only itself *)
CurrentOthers == last.st = "run" /\ sharp => \A k \in 1..N : OutPath[k] \in torn \/ Whole(fs, k)
Untouched == last.st \in {"run", "fail"} => \A p \in DOMAIN last.pre : (p \notin {OutPath[k] : k \in last.calls}) => p \in DOMAIN fs /\ fs[p] = last.pre[p]
(* known: false, an output that was being written when both programs were killed
   looks complete *)
AlwaysCurrent == last.st = "run" /\ sharp => \A k \in 1..N : Whole(fs, k)
(* inputs are never touched *)
InputsKept == Elems(Ins) \subseteq DOMAIN fs
Emitted == PrintAt > 0 /\ Len(hist) = PrintAt => PrintT("CASE " \o ToJson(hist))
=============================================================================
