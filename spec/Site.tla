-------------------------------- MODULE Site --------------------------------
(***************************************************************************)
(* What a settings file defines: the outputs of every build rule, with the *)
(* template, listing entry, sources and variables each is compiled from.   *)
(* Everything that blogc-make does (builds, rebuilds, cleaning, watching)  *)
(* is stated in terms of Outputs.                                          *)
(***************************************************************************)
EXTENDS Config, Loader

ListSections == {T("posts"), T("pages"), T("copy"), T("copy_files"), T("tags")}
Required == {T("AUTHOR_NAME"), T("AUTHOR_EMAIL"), T("SITE_TITLE"), T("SITE_TAGLINE"), T("BASE_DOMAIN")}
SGlobal == T("global")
SEnvironment == T("environment")
SSettings == T("settings")

VariableName(k) == k # <<>> /\ k[1] \in Upper /\ \A i \in 1..Len(k) : k[i] \in NameChars

\* literals (evaluated once)
L_1 == T("1")
L_10 == T("10")
L_DATE_FORMAT == T("DATE_FORMAT")
L_DESC == T("DESC")
L_IS_POST == T("IS_POST")
L_MAKE_ENV == T("MAKE_ENV")
L_MAKE_ENV_DEV == T("MAKE_ENV_DEV")
L_MAKE_RULE == T("MAKE_RULE")
L_MAKE_SLUG == T("MAKE_SLUG")
L_MAKE_TAGS == T("MAKE_TAGS")
L_MAKE_TYPE == T("MAKE_TYPE")
L__index_html == T("/index.html")
L__txt == T(".txt")
L__xml == T(".xml")
L_asc == T("asc")
L_atom == T("atom")
L_atom_tags == T("atom_tags")
L_content == T("content")
L_copy == T("copy")
L_copy_files == T("copy_files")
L_dev == T("dev")
L_index == T("index")
L_main_tmpl == T("main.tmpl")
L_page == T("page")
L_pages == T("pages")
L_pagination == T("pagination")
L_pagination_tags == T("pagination_tags")
L_post == T("post")
L_posts == T("posts")
L_tag == T("tag")
L_tags == T("tags")
L_templates == T("templates")
DefaultDateFormat == T("%b %d, %Y, %I:%M %p GMT")
FeedDateFormat == T("%Y-%m-%dT%H:%M:%SZ")
KeyText == [k \in {"atom_ext", "atom_legacy_entry_id", "atom_order", "atom_posts_per_page", "atom_prefix", "atom_template", "blog_prefix", "content_dir", "date_format",
                    "html_ext", "html_order", "index_prefix", "listing_entry", "locale", "main_template", "pagination_prefix", "post_prefix", "posts_per_page", "posts_sort", "run_from_make", "source_ext", "tag_prefix", "template_dir"} |-> T(k)]
Default(x, d) == IF x.ok THEN x.v ELSE d

(* the settings: ok, global (variables), lists [ok, v] and values *)
Settings(text) ==
    LET c == TLCEval(ParseConfig(text, ListSections))
        gs == Section(c, SGlobal)
        g == IF gs.ok THEN gs.v ELSE Section(c, SEnvironment).v
        Get(k) == Setting(c, SSettings, KeyText[k])
        copy == Section(c, L_copy)
    IN [ok |-> /\ c.ok
               /\ \A i \in 1..Len(g) : VariableName(g[i][1])
               /\ \A k \in Required : Defined(g, k) /\ Value(g, k) # <<>>
               /\ ~(Get("atom_legacy_entry_id").ok /\ ~Get("atom_template").ok),
        global |-> g,
        posts |-> Section(c, L_posts), pages |-> Section(c, L_pages), tags |-> Section(c, L_tags),
        copy |-> IF copy.ok THEN copy ELSE Section(c, L_copy_files),
        content_dir |-> Default(Get("content_dir"), L_content),
        template_dir |-> Default(Get("template_dir"), L_templates),
        atom_template |-> Get("atom_template"),
        main_template |-> Default(Get("main_template"), L_main_tmpl),
        source_ext |-> Default(Get("source_ext"), L__txt),
        listing_entry |-> Get("listing_entry"),
        sort |-> ToBool(Default(Get("posts_sort"), <<>>)),
        pagination_prefix |-> Default(Get("pagination_prefix"), L_page),
        per_page |-> Default(Get("posts_per_page"), L_10),
        atom_per_page |-> Default(Get("atom_posts_per_page"), L_10),
        html_ext |-> Default(Get("html_ext"), L__index_html),
        index_prefix |-> Default(Get("index_prefix"), <<>>),
        post_prefix |-> Default(Get("post_prefix"), L_post),
        tag_prefix |-> Default(Get("tag_prefix"), L_tag),
        html_order |-> Default(Get("html_order"), L_DESC),
        blog_prefix |-> Default(Get("blog_prefix"), <<>>),
        atom_prefix |-> Default(Get("atom_prefix"), L_atom),
        atom_ext |-> Default(Get("atom_ext"), L__xml),
        atom_order |-> Default(Get("atom_order"), L_DESC),
        date_format |-> Default(Get("date_format"), DefaultDateFormat),
        locale |-> Get("locale"),
        from_make |-> ToBool(Default(Get("run_from_make"), <<>>))]

(***************************************************************************)
(* Paths                                                                   *)
(***************************************************************************)
(* the non-empty parts with single slashes between them *)
Glue(parts) == Join(SelectSeq(parts, LAMBDA p : p # <<>>), <<47>>)
SIndex == T("index")
(* dir/gprefix/prefix/name ext: without a name it is an index *)
PathOf(dir, gprefix, prefix, name, ext) ==
    LET slash == ext # <<>> /\ ext[1] = 47
        base == IF dir = <<>> THEN <<>> ELSE dir
        g == IF gprefix = <<>> THEN base ELSE base \o <<47>> \o gprefix
        top == name = SIndex /\ slash /\ prefix = <<>>        \* the index page of the site
        stem == IF prefix # <<>> /\ name # <<>> THEN prefix \o (IF name[1] = 47 THEN <<>> ELSE <<47>>) \o name
                ELSE IF prefix # <<>> THEN prefix
                ELSE IF name # <<>> THEN name
                ELSE IF ext # <<>> /\ ~slash THEN SIndex
                ELSE <<>>
    IN IF gprefix = <<>> /\ prefix = <<>> /\ name = <<>> /\ ext = <<>> THEN <<>>      \* there is no such file
       ELSE IF top \/ stem = <<>> THEN g \o ext
       ELSE g \o <<47>> \o stem \o ext

(* relative paths are relative to the directory of the settings file *)
RECURSIVE Parts(_, _)
Parts(p, at) ==
    LET e == FindIn(p, at, {47})
    IN IF at > Len(p) THEN <<>> ELSE <<SubSeq(p, at, e - 1)>> \o Parts(p, e + 1)
(* without empty parts, "." and ".." (there are no symbolic links) *)
Norm(p) ==
    IF \A i \in 1..Len(p) - 1 : p[i] # 47 \/ p[i + 1] \notin {46, 47} THEN p
    ELSE LET s == FoldLeft(LAMBDA a, x : IF x = <<>> \/ x = <<46>> THEN a
                                         ELSE IF x = <<46, 46>> THEN (IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1))
                                         ELSE Append(a, x),
                           <<>>, Parts(p, 1))
         IN FoldLeft(LAMBDA a, x : a \o <<47>> \o x, <<>>, s)
Abs(root, p) == Norm(IF p # <<>> /\ p[1] = 47 THEN p ELSE root \o <<47>> \o p)

RECURSIVE TrimSlashes(_)
TrimSlashes(p) == IF Len(p) > 1 /\ p[Len(p)] = 47 THEN TrimSlashes(SubSeq(p, 1, Len(p) - 1)) ELSE p
OutputDir(env) == IF env.ok /\ env.v # <<>> THEN TrimSlashes(env.v) ELSE T("_build")

(***************************************************************************)
(* Rules                                                                   *)
(***************************************************************************)
One == L_1
Ordering(S, order) ==
    LET asc == ToLower(order) = L_asc
    IN (IF S.sort THEN <<<<NFSort, One>>>> ELSE <<>>) \o (IF S.sort = asc THEN <<<<NFReverse, One>>>> ELSE <<>>)
FirstPage(per) == IF StrToL(per) >= 0 THEN <<<<NFPage, One>>, <<NFPerPage, per>>>> ELSE <<>>

(* what every run of blogc gets *)
Common(S) == (IF S.tags.ok THEN <<<<L_MAKE_TAGS, Join(S.tags.v, <<32>>)>>>> ELSE <<>>) \o S.global
Dev(dev) == IF dev THEN <<<<L_MAKE_ENV_DEV, One>>, <<L_MAKE_ENV, L_dev>>>> ELSE <<>>
Kind(rule, type) == <<<<L_MAKE_RULE, rule>>, <<L_MAKE_TYPE, type>>>>
HtmlDate(S) == <<<<L_DATE_FORMAT, S.date_format>>>>
AtomDate == <<<<L_DATE_FORMAT, FeedDateFormat>>>>

PostFile(S, root, slug) == Abs(root, PathOf(S.content_dir, S.blog_prefix, S.post_prefix, slug, S.source_ext))
PageFile(S, root, slug) == Abs(root, PathOf(S.content_dir, <<>>, <<>>, slug, S.source_ext))
MainTemplate(S, root) == Abs(root, S.template_dir \o <<47>> \o S.main_template)
EntryFile(S, root) ==
    LET p == PathOf(S.content_dir, S.blog_prefix, <<>>, S.listing_entry.v, S.source_ext)
    IN IF S.listing_entry.ok /\ p # <<>> THEN [ok |-> TRUE, v |-> Abs(root, p)] ELSE [ok |-> FALSE, v |-> <<>>]
(* the default feed template is generated *)
AtomTemplateFile(S, root) ==
    IF S.atom_template.ok THEN [ok |-> TRUE, v |-> Abs(root, S.template_dir \o <<47>> \o S.atom_template.v)]
    ELSE [ok |-> FALSE, v |-> <<>>]

(* last page of a listing of posts: files is an association sequence, from
   the path of each existing source to its variables.  -1: it cannot be known *)
LastPageOf(S, root, vars, files, dev) ==
    LET paths == [i \in 1..Len(S.posts.v) |-> PostFile(S, root, S.posts.v[i])]
        env == FoldLeft(LAMBDA e, x : Put(e, x[1], x[2]), <<>>, Common(S) \o vars \o Dev(dev))
        sel == Select(env, [i \in 1..Len(paths) |-> Value(files, paths[i])])
    IN IF \E i \in 1..Len(paths) : ~Defined(files, paths[i]) THEN -1
       ELSE IF ~sel.ok THEN -1
       ELSE IF Defined(sel.global, NLast) THEN StrToL(Value(sel.global, NLast))
       ELSE 0

RuleNames == <<L_index, L_atom, L_atom_tags, L_pagination, L_pagination_tags, L_posts, L_tags, L_pages, L_copy>>

(* the outputs of a rule: [ok, outs].  W is the world:
   root, out (the output directory as configured), files, dev, copies (for each
   entry of the copy list the files that it stands for, in any order) *)
Outputs(S, W, rule) ==
    LET on == S.posts.ok /\ StrToL(S.per_page) # 0
        aon == S.posts.ok /\ StrToL(S.atom_per_page) # 0
        posts == TLCEval([i \in 1..Len(S.posts.v) |-> PostFile(S, W.root, S.posts.v[i])])
        Listing(r, path, vars) ==
            [rule |-> r, out |-> path, vars |-> vars, listing |-> TRUE, entry |-> EntryFile(S, W.root), sources |-> posts,
             template |-> [ok |-> TRUE, v |-> MainTemplate(S, W.root)], copy |-> FALSE]
        Feed(r, path, vars) ==
            [rule |-> r, out |-> path, vars |-> vars, listing |-> TRUE, entry |-> [ok |-> FALSE, v |-> <<>>], sources |-> posts,
             template |-> AtomTemplateFile(S, W.root), copy |-> FALSE]
        Single(r, path, src, vars) ==
            [rule |-> r, out |-> path, vars |-> vars, listing |-> FALSE, entry |-> [ok |-> FALSE, v |-> <<>>], sources |-> <<src>>,
             template |-> [ok |-> TRUE, v |-> MainTemplate(S, W.root)], copy |-> FALSE]
        Order == Ordering(S, S.html_order)
        AtomOrder == Ordering(S, S.atom_order)
        Tag(t) == <<<<NFTag, t>>>>
        All(s) == [ok |-> TRUE, outs |-> TLCEval(s)]
        None == All(<<>>)
        Unknown == [ok |-> FALSE, outs |-> <<>>]
        Pages == LastPageOf(S, W.root, FirstPage(S.per_page), W.files, W.dev)
        TagPages(t) == LastPageOf(S, W.root, FirstPage(S.per_page) \o Tag(t), W.files, W.dev)
        NthPage(r, path, n, vars) ==
            Listing(r, path, <<<<NFPerPage, S.per_page>>, <<NFPage, NatText(n)>>>> \o Order \o HtmlDate(S) \o vars)
    IN CASE rule = RuleNames[1] ->
            IF on THEN All(<<Listing(rule, PathOf(W.out, S.blog_prefix, S.index_prefix, <<>>, S.html_ext),
                                     FirstPage(S.per_page) \o Order \o HtmlDate(S) \o Kind(L_index, L_post))>>)
            ELSE None
         [] rule = RuleNames[2] ->
            IF aon THEN All(<<Feed(rule, PathOf(W.out, S.blog_prefix, S.atom_prefix, <<>>, S.atom_ext),
                                   FirstPage(S.atom_per_page) \o AtomOrder \o AtomDate \o Kind(L_atom, L_atom))>>)
            ELSE None
         [] rule = RuleNames[3] ->
            IF aon /\ S.tags.ok
            THEN All([i \in 1..Len(S.tags.v) |->
                        Feed(rule, PathOf(W.out, S.blog_prefix, S.atom_prefix, S.tags.v[i], S.atom_ext),
                             FirstPage(S.atom_per_page) \o AtomOrder \o AtomDate \o Kind(L_atom_tags, L_atom) \o Tag(S.tags.v[i]))])
            ELSE None
         [] rule = RuleNames[4] ->
            IF ~on THEN None
            ELSE LET n == Pages
                 IN IF n < 0 THEN Unknown
                    ELSE All([i \in 1..n |->
                                NthPage(rule, PathOf(W.out, S.blog_prefix, S.pagination_prefix, NatText(i), S.html_ext), i,
                                        Kind(L_pagination, L_post))])
         [] rule = RuleNames[5] ->
            IF ~on \/ ~S.tags.ok THEN None
            ELSE LET ns == TLCEval([k \in 1..Len(S.tags.v) |-> TagPages(S.tags.v[k])])
                     prefix(t) == Glue(<<S.tag_prefix, t, S.pagination_prefix>>)
                     Of(k) == [i \in 1..ns[k] |->
                                NthPage(rule, PathOf(W.out, S.blog_prefix, prefix(S.tags.v[k]), NatText(i), S.html_ext), i,
                                        Kind(L_pagination_tags, L_post) \o Tag(S.tags.v[k]))]
                 IN IF \E k \in 1..Len(ns) : ns[k] < 0 THEN Unknown
                    ELSE All(FoldLeft(LAMBDA a, k : a \o Of(k), <<>>, [k \in 1..Len(ns) |-> k]))
         [] rule = RuleNames[6] ->
            IF S.posts.ok
            THEN All([i \in 1..Len(S.posts.v) |->
                        Single(rule, PathOf(W.out, S.blog_prefix, S.post_prefix, S.posts.v[i], S.html_ext), posts[i],
                               <<<<L_IS_POST, One>>>> \o HtmlDate(S) \o Order \o Kind(L_posts, L_post)
                               \o <<<<L_MAKE_SLUG, S.posts.v[i]>>>>)])
            ELSE None
         [] rule = RuleNames[7] ->
            IF on /\ S.tags.ok
            THEN All([i \in 1..Len(S.tags.v) |->
                        Listing(rule, PathOf(W.out, S.blog_prefix, S.tag_prefix, S.tags.v[i], S.html_ext),
                                FirstPage(S.per_page) \o Order \o HtmlDate(S) \o Kind(L_tags, L_post) \o Tag(S.tags.v[i]))])
            ELSE None
         [] rule = RuleNames[8] ->
            IF S.pages.ok
            THEN All([i \in 1..Len(S.pages.v) |->
                        Single(rule, PathOf(W.out, <<>>, <<>>, S.pages.v[i], S.html_ext), PageFile(S, W.root, S.pages.v[i]),
                               HtmlDate(S) \o Kind(L_pages, L_page) \o <<<<L_MAKE_SLUG, S.pages.v[i]>>>>)])
            ELSE None
         [] rule = RuleNames[9] ->
            IF S.copy.ok
            THEN LET files == FoldLeft(LAMBDA a, c : a \o (IF Defined(W.copies, c) THEN Value(W.copies, c) ELSE <<c>>), <<>>, S.copy.v)
                 IN All([i \in 1..Len(files) |->
                            [rule |-> rule, out |-> W.out \o <<47>> \o files[i], vars |-> <<>>, listing |-> FALSE,
                             entry |-> [ok |-> FALSE, v |-> <<>>], sources |-> <<Abs(W.root, files[i])>>,
                             template |-> [ok |-> FALSE, v |-> <<>>], copy |-> TRUE]])
            ELSE None

(* the variables of a compilation, last definition wins *)
Effective(S, o, dev) == FoldLeft(LAMBDA e, x : Put(e, x[1], x[2]), <<>>, Common(S) \o o.vars \o Dev(dev))
(* a missing path: the output does not exist *)
Real(outs) == SelectSeq(outs, LAMBDA o : o.out # <<>>)
(* whatever an output is stale against *)
Inputs(o, blogcfile) ==
    {blogcfile} \cup Elems(o.sources) \cup (IF o.entry.ok THEN {o.entry.v} ELSE {}) \cup (IF o.template.ok THEN {o.template.v} ELSE {})
(* the rules of a command line: a rule may have arguments *)
RuleOf(arg) == SubSeq(arg, 1, FindIn(arg, 1, {58}) - 1)

(***************************************************************************)
(* The default feed template                                               *)
(***************************************************************************)
AtomUrl(S) ==
    (IF S.blog_prefix # <<>> THEN <<47>> \o S.blog_prefix ELSE <<>>)
    \o (IF S.atom_prefix # <<>> THEN <<47>> \o S.atom_prefix ELSE <<>>)
    \o T("{% ifdef FILTER_TAG %}/{{ FILTER_TAG }}")
    \o (IF S.atom_prefix = <<>> /\ (S.atom_ext = <<>> \/ S.atom_ext[1] # 47) THEN T("{% else %}/index") ELSE <<>>)
    \o T("{% endif %}") \o S.atom_ext
PostUrl(S) == PathOf(<<>>, S.blog_prefix, S.post_prefix, T("{{ FILENAME }}"), S.html_ext)
L(s) == T(s) \o <<10>>
Feed1 ==
    L("<?xml version=\"1.0\" encoding=\"utf-8\"?>")
    \o L("<feed xmlns=\"http://www.w3.org/2005/Atom\">")
    \o L("  <title type=\"text\">{{ SITE_TITLE }}{% ifdef FILTER_TAG %} - {{ FILTER_TAG }}{% endif %}</title>")
    \o T("  <id>{{ BASE_DOMAIN }}{{ BASE_URL }}")
Feed2 ==
    L("</id>")
    \o L("  <updated>{{ DATE_FIRST_FORMATTED }}</updated>")
    \o L("  <link href=\"{{ BASE_DOMAIN }}{{ BASE_URL }}/\" />")
    \o T("  <link href=\"{{ BASE_DOMAIN }}{{ BASE_URL }}")
Feed3 ==
    L("\" rel=\"self\" />")
    \o L("  <author>")
    \o L("    <name>{{ AUTHOR_NAME }}</name>")
    \o L("    <email>{{ AUTHOR_EMAIL }}</email>")
    \o L("  </author>")
    \o L("  <subtitle type=\"text\">{{ SITE_TAGLINE }}</subtitle>")
    \o L("  {%- block listing %}")
    \o L("  <entry>")
    \o L("    <title type=\"text\">{{ TITLE }}</title>")
    \o T("    <id>{{ BASE_DOMAIN }}{{ BASE_URL }}")
Feed4 ==
    L("</id>")
    \o L("    <updated>{{ DATE_FORMATTED }}</updated>")
    \o L("    <published>{{ DATE_FORMATTED }}</published>")
    \o T("    <link href=\"{{ BASE_DOMAIN }}{{ BASE_URL }}")
Feed5 ==
    L("\" />")
    \o L("    <author>")
    \o L("      <name>{{ AUTHOR_NAME }}</name>")
    \o L("      <email>{{ AUTHOR_EMAIL }}</email>")
    \o L("    </author>")
    \o L("    <content type=\"html\"><![CDATA[{{ CONTENT }}]]></content>")
    \o L("  </entry>")
    \o L("  {%- endblock %}")
    \o L("</feed>")
AtomTemplate(S) == Feed1 \o AtomUrl(S) \o Feed2 \o AtomUrl(S) \o Feed3 \o PostUrl(S) \o Feed4 \o PostUrl(S) \o Feed5
=============================================================================
