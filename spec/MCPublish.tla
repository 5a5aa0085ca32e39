----------------------------- MODULE MCPublish -----------------------------
(***************************************************************************)
(* An author edits, breaks, removes and repairs the files of a small site, *)
(* loses outputs, and builds; every output is a real page.  Checked: a     *)
(* build succeeds if and only if one from scratch would, and leaves the    *)
(* pages that one from scratch would make, whatever happened before.       *)
(***************************************************************************)
EXTENDS Publish, Json
CONSTANTS Depth, PrintAt, Sharp

Root == T("/r")
Lines(ls) == FoldLeft(LAMBDA a, l : a \o T(l) \o <<10>>, <<>>, ls)
Needed == <<"[global]", "AUTHOR_NAME = a", "AUTHOR_EMAIL = b", "SITE_TITLE = site", "SITE_TAGLINE = line", "BASE_DOMAIN = http://d">>
Sets == <<"[settings]", "html_ext = .h", "atom_template = feed", "main_template = m", "posts_per_page = 1", "date_format = %Y", "listing_entry = e">>
(* the inputs: a path and what it may hold *)
Inputs5 == <<
    <<T("/r/blogcfile"), <<Lines(Needed \o Sets \o <<"[posts]", "p", "q">>),
                           Lines(Needed \o Sets \o <<"html_order = ASC", "[posts]", "q", "p", "[tags]", "x", "[pages]", "e">>),
                           Lines(Needed \o Sets \o <<"[posts]", "q">>)>>>>,
    <<T("/r/templates/m"), <<T("{{ MAKE_RULE }}{% block entry %}{{ TITLE }}{{ CONTENT }}{% endblock %}{% block listing %}{{ TITLE }}{% endblock %}{% block listing_entry %}{{ TITLE }}{% endblock %}"),
                             T("{{ CURRENT_PAGE }}/{{ LAST_PAGE }}{% block entry %}{{ DATE_FORMATTED }}{% endblock %}"), T("{% block entry %}")>>>>,
    <<T("/r/templates/feed"), <<T("{% block listing %}{{ FILENAME }}{{ DATE_FORMATTED }}{% endblock %}"), T("{{ FILTER_TAG }}")>>>>,
    <<T("/r/content/post/p.txt"), <<Lines(<<"TITLE: P", "DATE: 2001-01-01", "---", "*p*">>), Lines(<<"TITLE: P2", "DATE: 2003-01-01", "TAGS: x", "---", "p2">>), T("bad")>>>>,
    <<T("/r/content/post/q.txt"), <<Lines(<<"TITLE: Q", "DATE: 2002-01-01", "TAGS: x", "---", "- q">>)>>>>,
    <<T("/r/content/e.txt"), <<Lines(<<"TITLE: E", "---", "e">>), Lines(<<"TITLE: E2", "---", "e2">>)>>>>>>
K == Len(Inputs5)
ASSUME TLCSet(1, TLCEval(Inputs5))
Input(k) == TLCGet(1)[k]
Cfg == T("/r/blogcfile")
OutDir == T("_build")
(* a variant of every input (0: it is not there): what the site is then *)
Worlds == {v \in [1..K -> 0..3] : v[1] > 0 /\ \A k \in 1..K : v[k] <= Len(Input(k)[2])}
FilesOf(v) == LET ks == SelectSeq([k \in 1..K |-> k], LAMBDA k : v[k] > 0) IN [i \in 1..Len(ks) |-> <<Input(ks[i])[1], Input(ks[i])[2][v[ks[i]]]>>]
WorldOf(v) ==
    LET S == TLCEval(Settings(Input(1)[2][v[1]]))
        X == TLCEval(Site0(S, Root, OutDir, FALSE, FilesOf(v)))
        all == TLCEval(Pages(X, RuleNames))
        mine == TLCEval({all.pages[i][1] : i \in 1..Len(all.pages)})
    IN [S |-> S, W |-> X.W, table |-> TLCEval(OutputTable(S, X.W)), mine |-> mine, page |-> TLCEval([p \in mine |-> Value(all.pages, p)]),
        works |-> all.ok /\ \A i \in 1..Len(all.pages) : all.pages[i][2].kind = "page"]
ASSUME TLCSet(2, TLCEval([v \in Worlds |-> TLCEval(WorldOf(v))]))
World(v) == TLCGet(2)[v]
Works(v) == World(v).works

VARIABLES ver, when, outs, clock, hist, last
(* ver: the variant of every input; when: its time; outs: [path -> [c, s]] *)
vars == <<ver, when, outs, clock, hist, last>>
Rest == [st |-> "none", pre |-> <<>>]
Init == /\ ver = [k \in 1..K |-> 1] /\ when = [k \in 1..K |-> 0] /\ outs = <<>> /\ clock = 0 /\ hist = <<>> /\ last = Rest
Log(x) == hist' = Append(hist, x)
More == Len(hist) < Depth
Edit(k, x, dt) ==
    /\ More /\ hist # <<>> /\ ver[k] # x /\ (k = 1 => x > 0) /\ x <= Len(Input(k)[2])
    /\ clock' = clock + dt
    /\ ver' = [ver EXCEPT ![k] = x] /\ when' = [when EXCEPT ![k] = clock']
    /\ Log(<<"edit", k, x>>) /\ last' = Rest /\ UNCHANGED outs
Lose(p) ==
    /\ More /\ p \in DOMAIN outs
    /\ outs' = [q \in DOMAIN outs \ {p} |-> outs[q]]
    /\ Log(<<"lose", 0, 0>>) /\ last' = Rest /\ UNCHANGED <<ver, when, clock>>
AsSeq(f) == LET ps == SetToSeq(DOMAIN f) IN [i \in 1..Len(ps) |-> <<ps[i], [c |-> f[ps[i]].c, s |-> f[ps[i]].s, n |-> 0]>>]
InSeq == LET ks == SelectSeq([k \in 1..K |-> k], LAMBDA k : ver[k] > 0)
         IN [i \in 1..Len(ks) |-> <<Input(ks[i])[1], [c |-> <<>>, s |-> when[ks[i]], n |-> 0]>>]
(* the first compilation that cannot succeed *)
PageAt(w, p) == w.page[p]
BuildRun(keeps) ==
    /\ More
    /\ LET w == World(ver)
           At(stop) == RunTable(<<>>, w.S, w.W, [fs |-> InSeq \o AsSeq(outs), blogcfile |-> Cfg, stopAt |-> stop, makes |-> [i \in 1..30 |-> i # stop]], w.table)
           free == TLCEval(At(0))
           bad == {i \in 1..Len(free.calls) : PageAt(w, free.calls[i].out).kind # "page"}
           a == IF bad = {} THEN free ELSE TLCEval(At(CHOOSE i \in bad : \A j \in bad : i <= j))
           t == clock + 1
           left == DOMAIN outs \ (IF keeps THEN {} ELSE a.failed)
       IN /\ (keeps \/ a.failed # {})
          /\ clock' = t
          /\ outs' = [p \in left \cup a.made |-> IF p \in a.made THEN [c |-> PageAt(w, p).out, s |-> t] ELSE outs[p]]
          /\ last' = [st |-> a.st, pre |-> outs]
          /\ Log(<<"build", 0, 0>>)
    /\ UNCHANGED <<ver, when>>
Next == \/ \E k \in 1..K, x \in 0..3 : Edit(k, x, 1) \/ (~Sharp /\ Edit(k, x, 0))
        \/ \E p \in DOMAIN outs : Lose(p)
        \/ \E b \in BOOLEAN : BuildRun(b)
Spec == Init /\ [][Next]_vars

Mine(w) == w.mine
(* it succeeds if and only if one from scratch would *)
SameSuccess == last.st # "none" => (last.st = "run" <=> Works(ver))
(* and leaves what that would leave *)
SamePages == last.st = "run" => \A p \in Mine(World(ver)) : p \in DOMAIN outs /\ outs[p].c = PageAt(World(ver), p).out
(* if not, every page is right, or as it was, or gone *)
NothingElse ==
    /\ last.st # "none" => \A p \in DOMAIN outs : \/ p \in DOMAIN last.pre /\ outs[p] = last.pre[p]
                                                  \/ p \in Mine(World(ver)) /\ PageAt(World(ver), p) = [kind |-> "page", out |-> outs[p].c]
    /\ last.st # "none" => DOMAIN last.pre \ Mine(World(ver)) \subseteq DOMAIN outs
(* the universe is not trivial *)
ASSUME Cardinality({v \in Worlds : Works(v)}) >= 20 /\ Cardinality({v \in Worlds : ~Works(v)}) >= 20
ASSUME \E v \in Worlds : Works(v) /\ Cardinality(World(v).mine) >= 10
Emitted == PrintAt > 0 /\ Len(hist) = PrintAt /\ hist[Len(hist)][1] = "build" => PrintT("CASE " \o ToJson(hist))
Inputs9 == PrintAt > 0 /\ hist = <<>> => PrintT("INPUTS " \o ToJson(Inputs5))
=============================================================================
