---------------------------- MODULE TraceDeploy ----------------------------
(* Runs of the hook pre-receive, as steps of histories, judged by Deploy.   *)
EXTENDS Deploy, Text, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: push (or a rebuild by hand), input: what git tells the hook;
   repo: the directory of the repository; sections: of the configuration
   [mine: it is this repository's, has, symlink]; places: what is where the live link may be
   [path, dir: where that is, pre, post], each [k, t: target, real: where it ends, if anywhere];
   builddir, oldbuilds: directories of builds, builds1, builds2: [path, tok] before and
   after; temps1, temps2: temporary directories; rest1, rest2: everything
   else [p, v]; content: [rev, kind, result, full]; no: the programs that do not
   exist; real, refs1, refs2, wanted: with the real git, the references; archive: git archive fails; holes: directories that do not exist;
   inject: "none", "fault", "sweep", "killed"; rc *)
Lines(s) == SelectSeq(Split(s, NL), LAMBDA l : l # <<>>)
Heads == T("refs/heads/")
UpdateOf(l) ==
    LET a == FindIn(l, 1, {SPC})
        b == FindIn(l, a + 1, {SPC})
        ref == SubSeq(l, b + 1, Len(l))
        new == SubSeq(l, a + 1, b - 1)
    IN [branch |-> IF StartsWith(ref, Heads) THEN SubSeq(ref, Len(Heads) + 1, Len(ref)) ELSE <<0>> \o ref,
        rev |-> new, gone |-> \A i \in 1..Len(new) : new[i] = 48]
Updates(c) == LET ls == Lines(c.input) IN {UpdateOf(ls[i]) : i \in 1..Len(ls)}

(* where the live link is *)
Mine(c) == SelectSeq(c.sections, LAMBDA s : s.mine)
LinkPath(c) ==
    IF Mine(c) # <<>> /\ Mine(c)[1].has
    THEN LET s == Mine(c)[1].symlink IN IF StartsWith(s, <<47>>) THEN s ELSE c.repo \o <<47>> \o s
    ELSE c.repo \o T("/htdocs")
Place(c, p) == c.places[CHOOSE i \in 1..Len(c.places) : c.places[i].path = p]

ParentOf(p) == LET q == SelectLastInSeq(p, LAMBDA x : x = 47) IN SubSeq(p, 1, q - 1)
NameOf(p) == LET q == SelectLastInSeq(p, LAMBDA x : x = 47) IN SubSeq(p, q + 1, Len(p))
RevOf(p) == LET n == NameOf(p) IN SubSeq(n, 1, FindIn(n, 1, {45}) - 1)
Stamped(p) == LET n == NameOf(p) m == FindIn(n, 1, {45}) IN m < Len(n) /\ n[m + 1] \in Digit
FullOf(c, rev) == LET S == {i \in 1..Len(c.content) : c.content[i].rev = rev} IN IF S = {} THEN <<>> ELSE c.content[CHOOSE i \in S : TRUE].full
BuildsOf(c, bs) == {[id |-> bs[i].path, rev |-> RevOf(bs[i].path), st |-> IF bs[i].tok = FullOf(c, RevOf(bs[i].path)) THEN "full" ELSE "part"] : i \in 1..Len(bs)}
LinkOf(c, x) ==
    IF x.k = "none" THEN [k |-> "none", id |-> <<>>]
    ELSE IF x.k # "link" THEN [k |-> "thing", id |-> <<>>]
    ELSE LET p == IF x.real # <<>> THEN x.real ELSE x.t
         IN IF ParentOf(p) \in {c.builddir} \cup Elems(c.oldbuilds) /\ Stamped(p) THEN [k |-> "link", id |-> p] ELSE [k |-> "other", id |-> x.t]
World1(c) == [link |-> LinkOf(c, Place(c, LinkPath(c)).pre), builds |-> BuildsOf(c, c.builds1), temps |-> Elems(c.temps1)]
World2(c) == [link |-> LinkOf(c, Place(c, LinkPath(c)).post), builds |-> BuildsOf(c, c.builds2), temps |-> Elems(c.temps2)]

Revision(c, w) ==
    IF c.push THEN Chosen(Updates(c), T("master"), T("main"))
    ELSE {b.rev : b \in Live(w)}
Missing(c, p) == T(p) \in Elems(c.no)
(* what has to happen *)
Fate(c, w) ==
    LET R == Revision(c, w)
        rev == CHOOSE x \in R : TRUE
        S == {i \in 1..Len(c.content) : c.content[i].rev = rev}
        x == c.content[CHOOSE i \in S : TRUE]
    IN IF R = {} THEN (IF c.push THEN "nothing" ELSE "fail")
       ELSE IF S = {} \/ c.archive \/ Missing(c, "git") \/ Missing(c, "tar") THEN "fail"
       ELSE IF x.kind = "none" THEN "nothing"
       ELSE IF x.kind \in {"blogcfile", "both"} /\ Missing(c, "blogc-make") THEN "fail"
       ELSE IF x.kind = "makefile" /\ Missing(c, "gmake") /\ Missing(c, "make") THEN "fail"
       ELSE IF x.result # "ok" \/ w.link.k = "thing" \/ ParentOf(LinkPath(c)) \in Elems(c.holes) THEN "fail"
       ELSE "ok"
Expected(c) == TLCEval(LET w == World1(c) IN [fate |-> Fate(c, w), rev |-> Revision(c, w), link |-> LinkPath(c)])

Agrees(c, e) ==
    LET w == World1(c)
        w2 == World2(c)
        rest1 == Elems(c.rest1)
        rest2 == Elems(c.rest2)
        others == \A i \in 1..Len(c.places) : c.places[i].path = e.link \/ c.places[i].pre = c.places[i].post
        same == rest1 = rest2 /\ others
        rev == CHOOSE x \in e.rev : TRUE
        Stay == Unchanged(w, w2) /\ Place(c, e.link).pre = Place(c, e.link).post
        Did == e.fate = "ok" /\ Succeeded(w, w2, rev) /\ \A b \in w2.builds \ w.builds : ParentOf(b.id) = c.builddir
        Partly == e.rev # {} /\ Stopped(w, w2, rev)
        (* killed before there was a build *)
        Left == w2.link = w.link /\ w2.builds = w.builds /\ w.temps \subseteq w2.temps /\ Cardinality(w2.temps \ w.temps) <= 1
        (* what is live is complete, or as it was *)
        Whole == \A b \in Live(w2) : b.st = "full" \/ b \in Live(w)
        Kept == w2.link = w.link \/ Live(w2) # {}
    IN /\ Whole /\ Kept
       (* (with the real git) a push that is refused changes nothing *)
       /\ c.real => c.refs2 = (IF c.rc = 0 THEN c.wanted ELSE c.refs1)
       /\ CASE c.inject = "none" ->
                 /\ same
                 /\ CASE e.fate = "nothing" -> c.rc = 0 /\ Stay
                      [] e.fate = "fail" -> c.rc # 0 /\ Stay
                      [] OTHER -> c.rc = 0 /\ Did
            [] c.inject = "fault" ->
                 /\ same
                 /\ \/ c.rc # 0 /\ Stay
                    \/ e.fate = "ok" /\ c.rc = 0 /\ Did
                    \/ e.fate = "nothing" /\ Stay
            [] c.inject = "sweep" ->
                 /\ same
                 /\ Stay \/ Did \/ Partly
                 /\ e.fate = "ok" /\ c.rc = 0 => w2.link # w.link \/ Did
            [] OTHER ->
                 /\ others
                 /\ rest1 \subseteq rest2
                 (* (a link that was about to become the live one) *)
                 /\ \A x \in rest2 \ rest1 : x.k = "link" /\ ParentOf(x.p) = Place(c, e.link).dir
                 /\ Stay \/ Did \/ Partly \/ Left
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
