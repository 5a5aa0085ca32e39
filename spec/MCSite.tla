------------------------------- MODULE MCSite -------------------------------
(***************************************************************************)
(* Laws of the outputs of a site, for every combination of settings and    *)
(* lists of a small universe: which posts a reader finds where.            *)
(***************************************************************************)
EXTENDS Build
CONSTANTS MaxPosts, Full

Base == [ok |-> TRUE, global |-> <<<<T("K"), T("v")>>>>, content_dir |-> T("c"), template_dir |-> T("t"), atom_template |-> [ok |-> FALSE, v |-> <<>>],
         main_template |-> T("m"), source_ext |-> T(".s"), listing_entry |-> [ok |-> FALSE, v |-> <<>>], copy |-> [ok |-> FALSE, v |-> <<>>],
         date_format |-> T("%Y"), locale |-> [ok |-> FALSE, v |-> <<>>], from_make |-> FALSE, atom_ext |-> T(".xml"), pagination_prefix |-> T("page"),
         pages |-> [ok |-> TRUE, v |-> <<T("index"), T("about")>>]]
Slugs == <<T("a"), T("b"), T("d"), T("e")>>
TagSets == <<<<>>, T("x"), T("x y"), T("y")>>
PerPages == {T("-1"), T("0"), T("1"), T("2"), T("3")} \cup (IF Full THEN {T("10"), T("x")} ELSE {})
Root == T("/r")
Out == T("_b")

VARIABLES n, tags, per, order, sort, ext, prefix, tagged
vars == <<n, tags, per, order, sort, ext, prefix, tagged>>
Init == /\ n \in 0..MaxPosts
        /\ tags \in {<<>>, <<T("x"), T("y"), T("z")>>} \cup (IF Full THEN {<<T("x")>>} ELSE {})
        /\ per \in PerPages
        /\ order \in {T("ASC"), T("DESC")} \cup (IF Full THEN {T("asc")} ELSE {})
        /\ sort \in BOOLEAN
        /\ ext \in {T("/index.html")} \cup (IF Full THEN {T(".html")} ELSE {})
        /\ prefix \in {<<T("post"), T("tag"), <<>>, <<>>>>} \cup (IF Full THEN {<<<<>>, T("tag"), T("blog"), T("idx")>>} ELSE {})
        /\ tagged \in [1..n -> 1..4]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

S == Base @@ [posts |-> [ok |-> TRUE, v |-> SubSeq(Slugs, 1, n)], tags |-> [ok |-> tags # <<>>, v |-> tags], per_page |-> per, atom_per_page |-> per,
              html_order |-> order, atom_order |-> T("DESC"), sort |-> sort, html_ext |-> ext, post_prefix |-> prefix[1], tag_prefix |-> prefix[2],
              blog_prefix |-> prefix[3], index_prefix |-> prefix[4], atom_prefix |-> T("atom")]
\* later posts have later dates
Files == [i \in 1..n |-> <<PostFile(S, Root, Slugs[i]), <<<<NFilename, Slugs[i]>>, <<NDate, T("2001-01-0") \o <<48 + i>>>>, <<NTags, TagSets[tagged[i]]>>>>>>]
W == [root |-> Root, out |-> Out, files |-> Files, dev |-> FALSE, copies |-> <<>>]
Outs(i) == Outputs(S, W, RuleNames[i])
Everything == AllOutputs(S, W)

(* what a listing shows: the file names, in order *)
Shows(o) ==
    LET s == Select(Effective(S, o, FALSE), [i \in 1..Len(o.sources) |-> Value(Files, o.sources[i])])
    IN [i \in 1..Len(s.sel) |-> Value(s.sel[i], NFilename)]
(* all the posts in the configured order: the list is from old to new in any case here *)
Wanted(sel(_)) ==
    LET all == SelectSeq(SubSeq(Slugs, 1, n), sel)
    IN IF ToLower(order) = T("asc") THEN all ELSE Reverse(all)
PP == StrToL(per)

Known == \A i \in 1..9 : Outs(i).ok
(* every post is on exactly one page, in order *)
Partition ==
    LET o == Outs(4).outs
    IN IF PP > 0 THEN Concat([i \in 1..Len(o) |-> Shows(o[i])]) = Wanted(LAMBDA s : TRUE)
                      /\ \A i \in 1..Len(o) : Len(Shows(o[i])) \in 1..PP
       ELSE o = <<>>
TagPartition ==
    LET o == Outs(5).outs
        Of(t) == SelectSeq(o, LAMBDA x : <<NFTag, t>> \in Elems(x.vars))
    IN IF PP > 0 THEN \A t \in Elems(tags) : Concat([i \in 1..Len(Of(t)) |-> Shows(Of(t)[i])])
                                         = Wanted(LAMBDA s : \E i \in 1..n : Slugs[i] = s /\ t \in Elems(Words(TagSets[tagged[i]])))
       ELSE o = <<>>
Index ==
    LET o == Outs(1).outs
    IN IF PP = 0 THEN o = <<>>
       ELSE /\ Len(o) = 1
            /\ Shows(o[1]) = IF PP > 0 THEN SubSeq(Wanted(LAMBDA s : TRUE), 1, IF PP < n THEN PP ELSE n) ELSE Wanted(LAMBDA s : TRUE)
TagLists ==
    LET o == Outs(7).outs
    IN IF PP = 0 THEN o = <<>>
       ELSE /\ Len(o) = Len(tags)
            /\ \A i \in 1..Len(o) : LET w == Wanted(LAMBDA s : \E k \in 1..n : Slugs[k] = s /\ tags[i] \in Elems(Words(TagSets[tagged[k]])))
                                    IN Shows(o[i]) = IF PP > 0 THEN SubSeq(w, 1, IF PP < Len(w) THEN PP ELSE Len(w)) ELSE w
(* the feeds show the newest posts first (atom_order DESC) *)
Feeds ==
    LET o == Outs(2).outs
        all == Reverse(SubSeq(Slugs, 1, n))
    IN IF PP = 0 THEN o = <<>> /\ Outs(3).outs = <<>>
       ELSE Shows(o[1]) = (IF PP > 0 THEN SubSeq(all, 1, IF PP < n THEN PP ELSE n) ELSE all) /\ Len(Outs(3).outs) = Len(tags)
(* no two compilations have the same output, and all are below the output directory *)
Distinct ==
    LET o == Everything.outs
    IN prefix[1] # <<>> => \A i \in 1..Len(o) : \A j \in 1..Len(o) : o[i].out = o[j].out =>
            \/ i = j
            \/ {o[i].rule, o[j].rule} = {L_index, L_pages}      \* a page named index, and the index of the blog
Inside == \A o \in Elems(Everything.outs) : Below(o.out, Out) /\ o.out[Len(o.out)] # 47
(* a post is compiled from its own source, and is what listings list *)
Posts == LET o == Outs(6).outs IN Len(o) = n /\ \A i \in 1..n : o[i].sources = <<Files[i][1]>> /\ <<T("MAKE_SLUG"), Slugs[i]>> \in Elems(o[i].vars)
(* a build of an empty output directory, and then another one *)
Fs0 == [i \in 1..(n + 4) |-> IF i <= n THEN <<Files[i][1], [c |-> <<>>, s |-> 1, n |-> 0]>>
                             ELSE <<<<Root \o T("/blogcfile"), PageFile(S, Root, T("index")), PageFile(S, Root, T("about")), MainTemplate(S, Root)>>[i - n],
                                    [c |-> <<>>, s |-> 1, n |-> 0]>>]
Run0(fs) == RunRules(<<>>, S, W, [fs |-> fs, blogcfile |-> Root \o T("/blogcfile"), stopAt |-> 0, makes |-> [i \in 1..100 |-> TRUE]])
Builds ==
    LET a == TLCEval(Run0(Fs0))
        fs == Fs0 \o [i \in 1..Len(a.calls) |-> <<a.calls[i].out, [c |-> <<>>, s |-> 2, n |-> 0]>>]
        b == Run0(fs)
    IN /\ a.st = "run" /\ a.made = {Abs(Root, o.out) : o \in Elems(Everything.outs)}
       /\ b.st = "run" /\ b.calls = <<>>
=============================================================================
