------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* Source files: header lines, separator, content.  SourceStep is the      *)
(* machine: it consumes a header line or the separator.                    *)
(***************************************************************************)
EXTENDS Content, Toctree

ReservedKeys == {T("FILENAME"), T("CONTENT"), T("DATE_FORMATTED"), T("DATE_FIRST_FORMATTED"), T("DATE_LAST_FORMATTED"),
                 T("PAGE_FIRST"), T("PAGE_PREVIOUS"), T("PAGE_CURRENT"), T("PAGE_NEXT"), T("PAGE_LAST"), T("BLOGC_VERSION")}
NRaw == T("RAW_CONTENT")
NContent == T("CONTENT")
NExcerpt == T("EXCERPT")
NFirstHeader == T("FIRST_HEADER")
NDescription == T("DESCRIPTION")
NToctree == T("TOCTREE")
NMaxDepth == T("TOCTREE_MAXDEPTH")

(* a: [i, env, st, from]; st: "head", "bad", or "end" (content starts at from,
   0: there is none) *)
SourceStep(a, s) ==
    LET p == FindNotIn(s, a.i, {32, 9, 10, 13})
        bad == [a EXCEPT !.st = "bad"]
    IN IF p > Len(s) THEN (IF a.env = <<>> THEN bad ELSE [a EXCEPT !.st = "end"])
       ELSE IF s[p] = 45 THEN
            LET e == FindNotIn(s, p, {45})
                f == FindNotIn(s, e, Newlines)
            IN IF e > Len(s) THEN [a EXCEPT !.st = "end"]
               ELSE IF s[e] \notin Newlines THEN bad
               ELSE [a EXCEPT !.st = "end", !.from = IF f > Len(s) THEN 0 ELSE f]
       ELSE IF s[p] \in Upper THEN
            LET k == FindNotIn(s, p, NameChars)
                e == FindIn(s, k, Newlines)
                key == SubSeq(s, p, k - 1)
            IN IF k > Len(s) \/ e > Len(s) THEN bad
               ELSE IF s[k] # 58 \/ key \in ReservedKeys THEN bad
               ELSE [a EXCEPT !.i = e + 1, !.env = Put(@, key, Strip(SubSeq(s, k + 1, e - 1)))]
       ELSE bad
RECURSIVE SourceFrom(_, _)
SourceFrom(a, s) == IF a.st # "head" THEN a ELSE SourceFrom(SourceStep(a, s), s)

PutUnless(env, n, x) == IF x.ok /\ ~Defined(env, n) THEN Put(env, n, x.v) ELSE env

(* depth: the global maximum depth of the table of contents *)
ParseSource(s, depth, dev) ==
    LET a == SourceFrom([i |-> 1, env |-> <<>>, st |-> "head", from |-> 0], s)
        raw == SubSeq(s, a.from, Len(s))
        c == Content(raw, dev)
        own == Defined(a.env, NMaxDepth)
        md == Value(a.env, NMaxDepth)
        d == IF own THEN StrToL(md) ELSE depth
        toc == Toc(c.heads, d, Ending(Lines(raw)))
        e1 == PutUnless(PutUnless(Put(a.env, NRaw, raw), NFirstHeader, c.fh), NDescription, c.desc)
        wants == ~Defined(e1, NToctree) /\ c.heads # <<>>
        e2 == IF wants THEN PutUnless(e1, NToctree, [ok |-> toc.ok, v |-> toc.html]) ELSE e1
        e3 == Put(Put(e2, NContent, c.out), NExcerpt, IF c.sep < 0 THEN c.out ELSE SubSeq(c.out, 1, c.sep))
    IN IF a.st = "bad" THEN [ok |-> FALSE, env |-> <<>>]
       ELSE IF a.from = 0 THEN [ok |-> TRUE, env |-> a.env]
       ELSE IF wants /\ own /\ md # <<>> /\ ~StrToLClean(md) THEN [ok |-> FALSE, env |-> <<>>]
       ELSE [ok |-> TRUE, env |-> e3]

(* base name without the last extension *)
RECURSIVE LastOf(_, _, _)
LastOf(s, i, c) == IF i = 0 THEN 0 ELSE IF s[i] = c THEN i ELSE LastOf(s, i - 1, c)
\* (a backslash separates directories too)
BaseName(f) == SubSeq(f, Max2(LastOf(f, Len(f), 47), LastOf(f, Len(f), 92)) + 1, Len(f))
FileName(f) == LET b == BaseName(f)
                   d == LastOf(b, Len(b), 46)
               IN IF d = 0 THEN b ELSE SubSeq(b, 1, d - 1)
=============================================================================
