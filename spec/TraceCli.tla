------------------------------ MODULE TraceCli ------------------------------
(* Whole runs of blogc, judged by Cli.                                      *)
EXTENDS Cli, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: argv, stdin, files (<<path, content>>), dirs; help: what
   -h alone shows; observed: ok, out, err, changes (the files that have become
   something else, <<path, [ok, v]>>) *)
HasPart(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
HelpOK(h) == /\ StartsWith(h, T("usage:"))
             /\ \A o \in {"-h", "-v", "-d", "-i", "-l", "-e SOURCE", "-D KEY=VALUE", "-p KEY", "-t TEMPLATE", "-o OUTPUT"} :
                   HasPart(h, <<10>> \o T("    ") \o T(o) \o T(" "))
Change(fs, p, v) == IF Defined(fs, p) /\ Value(fs, p) = v THEN <<>> ELSE <<<<p, Given(v)>>>>
Expected(c) ==
    LET r == TLCEval(Run(c.argv, c.stdin, c.files))
        d == TLCEval(Destination(c.argv))
        tofile == r.kind = "page" /\ d.ok
        can == Writable(c.files, Elems(c.dirs), d.v)
    IN CASE r.kind = "help" -> [ok |-> TRUE, kind |-> r.kind, out |-> IF HelpOK(c.help) THEN c.help ELSE T("help is not help"), changes |-> <<>>]
         [] r.kind = "version" -> [ok |-> TRUE, kind |-> r.kind, out |-> T("blogc 0.0.0") \o <<10>>, changes |-> <<>>]
         [] r.kind = "value" -> [ok |-> TRUE, kind |-> r.kind, out |-> Append(r.out, 10), changes |-> <<>>]
         [] tofile /\ can -> [ok |-> TRUE, kind |-> r.kind, out |-> <<>>, changes |-> Change(c.files, Plain(d.v), r.out)]
         [] r.kind = "page" /\ ~tofile -> [ok |-> TRUE, kind |-> r.kind, out |-> r.out, changes |-> <<>>]
         [] OTHER -> [ok |-> FALSE, kind |-> "error", out |-> <<>>, changes |-> <<>>]
Usage == T("usage: blogc ")
Agrees(c, e) ==
    /\ c.ok = e.ok
    /\ c.changes = e.changes
    /\ IF e.ok THEN c.out = e.out ELSE c.err /\ (c.out = <<>> \/ StartsWith(c.out, Usage))
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
