--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The compiler as a whole: an argument vector, a file list on standard    *)
(* input and a file tree give an exit status, a page, and a file tree.     *)
(* ArgStep is the machine: it consumes one argument (an option with its    *)
(* value, wherever that is).                                               *)
(***************************************************************************)
EXTENDS Text, Utf8
L == INSTANCE Loader
S == INSTANCE Source
M == INSTANCE Template

Unset == [ok |-> FALSE, v |-> <<>>]
Given(v) == [ok |-> TRUE, v |-> v]

---------------------------------------------------------------------------
(* Arguments *)
KV == {101, 116, 111, 112, 68}        \* e t o p D: options with a value
(* a definition *)
ValidDef(d) ==
    LET e == FindIn(d, 1, {61})
    IN /\ Utf8Valid(d) /\ e <= Len(d) /\ e > 1
       /\ d[1] \in Upper /\ FindNotIn(d, 1, NameChars) = e
DefName(d) == SubSeq(d, 1, FindIn(d, 1, {61}) - 1)
DefValue(d) == SubSeq(d, FindIn(d, 1, {61}) + 1, Len(d))

CliInit == [i |-> 1, st |-> "args", defs |-> <<>>, srcs |-> <<>>, entries |-> <<>>, tmpl |-> Unset, out |-> Unset,
            print |-> Unset, listing |-> FALSE, list |-> FALSE]
ArgStep(a, argv) ==
    IF a.i > Len(argv) THEN [a EXCEPT !.st = "run"]
    ELSE LET x == argv[a.i]
             o == IF Len(x) >= 2 THEN x[2] ELSE 0
             here == Len(x) > 2
             missing == ~here /\ a.i = Len(argv)
             v == IF here THEN SubSeq(x, 3, Len(x)) ELSE IF missing THEN <<>> ELSE argv[a.i + 1]
             one == [a EXCEPT !.i = @ + 1]
             both == [a EXCEPT !.i = @ + (IF here THEN 1 ELSE 2)]
         IN CASE x = <<>> \/ (x # <<>> /\ x[1] # 45) -> [one EXCEPT !.srcs = Append(@, x)]
              [] o = 104 -> [a EXCEPT !.st = "help"]
              [] o = 118 -> [a EXCEPT !.st = "version"]
              [] o = 100 -> one
              [] o = 105 -> [one EXCEPT !.list = TRUE]
              [] o = 108 -> [one EXCEPT !.listing = TRUE]
              [] o \in KV /\ missing -> one          \* an option without its value is not given
              [] o = 101 -> [both EXCEPT !.entries = Append(@, v)]
              [] o = 116 -> [both EXCEPT !.tmpl = Given(v)]
              [] o = 111 -> [both EXCEPT !.out = Given(v)]
              [] o = 112 -> [both EXCEPT !.print = Given(v)]
              [] o = 68 -> IF ValidDef(v) THEN [both EXCEPT !.defs = Put(@, DefName(v), DefValue(v))]
                           ELSE [a EXCEPT !.st = "bad"]
              [] OTHER -> [a EXCEPT !.st = "bad"]
RECURSIVE ArgsFrom(_, _)
ArgsFrom(a, argv) == IF a.st # "args" THEN a ELSE ArgsFrom(TLCEval(ArgStep(a, argv)), argv)
ParseArgs(argv) == ArgsFrom(CliInit, argv)

(* a file list: one name per line *)
FileList(s) ==
    LET ls == Split(MapText(LAMBDA c : IF c = CR THEN NL ELSE c, s), NL)
    IN SelectSeq([i \in 1..Len(ls) |-> Strip(ls[i])], LAMBDA l : l # <<>> /\ l[1] # 35)

---------------------------------------------------------------------------
(* The run.  fs: the files that can be read, <<path, content>>; dirs: the
   directories; every one is in the working directory *)
\* a path without empty, "." and ".." components ("" is the working directory)
Plain(p) ==
    Join(FoldLeft(LAMBDA acc, c : IF c \in {<<>>, <<46>>} THEN acc
                                  ELSE IF c = <<46, 46>> THEN (IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
                                  ELSE Append(acc, c), <<>>, Split(p, 47)), <<47>>)
RECURSIVE Above(_, _)
Above(p, i) ==
    LET e == FindIn(p, i, {47})
    IN IF e > Len(p) THEN {} ELSE (IF e > 1 THEN {SubSeq(p, 1, e - 1)} ELSE {}) \cup Above(p, e + 1)
Readable(fs, p) ==
    /\ p # <<>> /\ p[Len(p)] # 47 /\ Defined(fs, Plain(p))
    /\ \A q \in Above(p, 1) : ~Defined(fs, Plain(q))
ContentOf(fs, p) == Value(fs, Plain(p))
NVersion == T("BLOGC_VERSION")

ReadSource(fs, p, depth, dev) ==
    IF ~Readable(fs, p) THEN [ok |-> FALSE, env |-> <<>>]
    ELSE LET r == ReadText(ContentOf(fs, p))
             x == S!ParseSource(r.text, depth, dev)
         IN IF ~r.ok \/ ~x.ok THEN [ok |-> FALSE, env |-> <<>>]
            ELSE [ok |-> TRUE, env |-> Put(x.env, T("FILENAME"), S!FileName(p))]

(* can a file be made (or replaced) at this path? *)
Writable(fs, dirs, p) ==
    /\ p # <<>> /\ p[Len(p)] # 47 /\ Plain(p) \notin dirs \cup {<<>>}
    /\ \A q \in Above(p, 1) : ~Defined(fs, Plain(q))

Nothing == [kind |-> "error", out |-> <<>>]
(* what is compiled: a says how, ss and es are the sources and entries that
   were read, fs holds the template.  kind "error", "value" or "page" *)
Compiled(a, ss, es, fs) ==
    LET global0 == <<<<NVersion, T("0.0.0")>>>> \o a.defs
        sel == TLCEval(L!Select(global0, [i \in 1..Len(ss) |-> ss[i].env]))
        tr == ReadText(ContentOf(fs, a.tmpl.v))
        tp == TLCEval(M!ParseTemplate(tr.text))
        ctx == [listing |-> a.listing, global |-> sel.global, sources |-> sel.sel,
                entries |-> [i \in 1..Len(es) |-> [ok |-> a.entries[i] # <<>>, env |-> es[i].env]], leak |-> FALSE]
        val == M!Resolve([global |-> sel.global, local |-> IF a.listing \/ sel.sel = <<>> THEN <<>> ELSE sel.sel[1], loop |-> M!NoLoop], a.print.v)
    IN CASE ~a.listing /\ Len(ss) # 1 -> Nothing
         [] \E i \in 1..Len(ss) : ~ss[i].ok -> Nothing
         [] ~sel.ok -> Nothing
         [] a.listing /\ (\E i \in 1..Len(es) : ~es[i].ok) -> Nothing
         [] a.print.ok -> IF val.ok THEN [kind |-> "value", out |-> val.v] ELSE Nothing
         [] ~a.tmpl.ok -> Nothing
         [] ~Readable(fs, a.tmpl.v) -> Nothing
         [] ~tr.ok \/ ~tp.ok -> Nothing
         [] OTHER -> [kind |-> "page", out |-> M!Render(ctx, tp.toks)]
DepthOf(defs) == IF Defined(defs, S!NMaxDepth) THEN StrToL(Value(defs, S!NMaxDepth)) ELSE -1

(* what a run produces: kind "help", "version", "error", "value" or "page" *)
Run(argv, stdin, fs) ==
    LET a == TLCEval(ParseArgs(argv))
        srcs == a.srcs \o (IF a.list THEN FileList(stdin) ELSE <<>>)
        depth == DepthOf(a.defs)
        ss == TLCEval([i \in 1..Len(srcs) |-> ReadSource(fs, srcs[i], depth, FALSE)])
        es == TLCEval([i \in 1..Len(a.entries) |->
                 IF a.entries[i] = <<>> THEN [ok |-> TRUE, env |-> <<>>] ELSE ReadSource(fs, a.entries[i], depth, FALSE)])
    IN CASE a.st = "help" -> [kind |-> "help", out |-> <<>>]
         [] a.st = "version" -> [kind |-> "version", out |-> <<>>]
         [] a.st = "bad" -> Nothing
         [] OTHER -> Compiled(a, ss, es, fs)

(* where the page goes: an absent output or "-" is standard output *)
Destination(argv) == LET a == ParseArgs(argv) IN IF a.out.ok /\ a.out.v # T("-") THEN a.out ELSE Unset
=============================================================================
