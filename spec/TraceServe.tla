----------------------------- MODULE TraceServe -----------------------------
(* The server that "blogc-make runserver" runs: its arguments and its fate. *)
EXTENDS Site, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* RULE:key=value,key=value  Without any "=", or with something after the last
   "," that is not a pair, there are no arguments *)
RECURSIVE Pairs(_, _, _)
Pairs(s, at, acc) ==
    LET e == FindIn(s, at, {61})
        c == FindIn(s, e + 1, {44})
        a == Put(acc, SubSeq(s, at, e - 1), SubSeq(s, e + 1, c - 1))
    IN IF e > Len(s) THEN <<>> ELSE IF c > Len(s) THEN a ELSE Pairs(s, c + 1, a)
ArgsOf(rule) ==
    LET s == FindIn(rule, 1, {58})
    IN IF s > Len(rule) THEN <<>> ELSE Pairs(rule, s + 1, <<>>)
Option(args, k, o) == IF Defined(args, T(k)) THEN {<<o, Value(args, T(k))>>} ELSE {}
(* a case: rule, root, outdir, opts (pairs, in any order), rest (other arguments),
   runs (how often it was run), rc (what it was told to return), status *)
Expected(c) ==
    LET a == TLCEval(ArgsOf(c.rule))
    IN [opts |-> Option(a, "host", T("-t")) \cup Option(a, "port", T("-p")) \cup Option(a, "threads", T("-m")),
        rest |-> <<Abs(c.root, OutputDir(c.outdir))>>]
Agrees(c, e) ==
    /\ c.runs = 1
    /\ Elems(c.opts) = e.opts /\ Len(c.opts) = Cardinality(e.opts)
    /\ [i \in 1..Len(c.rest) |-> Norm(c.rest[i])] = e.rest
    /\ c.status = c.rc
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
