----------------------------- MODULE MCTemplate -----------------------------
(***************************************************************************)
(* Every well-nested template up to MaxTokens statements is built, written *)
(* down, parsed and interpreted in every context, one transition at a time.*)
(* Checked: parsing inverts writing; the interpreter computes the          *)
(* declarative meaning and never leaves the template.  Every finished      *)
(* behaviour is emitted, to be replayed on the real program.               *)
(***************************************************************************)
EXTENDS Template, Json
CONSTANTS MaxTokens, Emit

NLoc == T("LOC")
NUnd == T("UND")
NLst == T("LST")
NLlst == T("LLST")

Alphabet ==
    {Tok("block", b) : b \in BlockTypes} \cup
    {Tok("endblock", <<>>), Tok("ifdef", NLoc), Tok("ifndef", NLoc), Tok("ifdef", NUnd),
     Tok("else", <<>>), Tok("endif", <<>>), Tok("foreach", NLst), Tok("foreach", NLlst),
     Tok("endforeach", <<>>)}

(* after every statement: a digit, the local variable, the loop item *)
Mark(i) == <<Tok("text", <<48 + i>>), Tok("var", NLoc), Tok("var", NItem)>>
RECURSIVE WithMarks(_, _)
WithMarks(p, i) ==
    IF i > Len(p) THEN <<>> ELSE <<p[i]>> \o Mark(i) \o WithMarks(p, i + 1)
Full(p) == Mark(0) \o WithMarks(p, 1)

(* concrete syntax *)
WriteTok(t) ==
    CASE t.k = "text" -> t.n
      [] t.k = "var" -> T("{{ ") \o t.n \o T(" }}")
      [] t.k \in {"block", "ifdef", "ifndef", "foreach"} -> T("{% ") \o T(t.k) \o <<32>> \o t.n \o T(" %}")
      [] OTHER -> T("{% ") \o T(t.k) \o T(" %}")
Write(toks) == Concat([i \in 1..Len(toks) |-> WriteTok(toks[i])])

Src(v, l) == <<<<NLoc, v>>, <<T("FILENAME"), v>>>> \o (IF l = <<>> THEN <<>> ELSE <<<<NLlst, l>>>>)
S1 == Src(T("a"), T("p q"))
S2 == Src(T("b"), <<>>)
E1 == [ok |-> TRUE, env |-> Src(T("e"), <<>>)]
E2 == [ok |-> TRUE, env |-> Src(T("f"), T("r"))]
E0 == [ok |-> FALSE, env |-> <<>>]
Global == <<<<NLst, T("x y")>>>>
Ctx(l, ss, es) == [listing |-> l, global |-> Global, sources |-> ss, entries |-> es, leak |-> FALSE]
Contexts == {Ctx(FALSE, <<S1>>, <<>>), Ctx(TRUE, <<>>, <<>>), Ctx(TRUE, <<S1>>, <<E1>>),
             Ctx(TRUE, <<S1, S2>>, <<E0, E1, E2>>), Ctx(TRUE, <<S2, S1>>, <<E1, E2>>)}

VARIABLES prog, stack, phase, ctx, toks, m, rs
vars == <<prog, stack, phase, ctx, toks, m, rs>>

Init == /\ prog = <<>> /\ stack = <<>> /\ phase = "build"
        /\ ctx = <<>> /\ toks = <<>> /\ m = <<>> /\ rs = <<>>

Build == /\ phase = "build"
         /\ \E t \in Alphabet :
              LET s == NestStep(stack, t)
              IN /\ s # Bad
                 /\ Len(prog) + 1 + Len(s) <= MaxTokens
                 /\ prog' = Append(prog, t) /\ stack' = s
         /\ UNCHANGED <<phase, ctx, toks, m, rs>>
Start == /\ phase = "build" /\ stack = <<>>
         /\ phase' = "run"
         /\ ctx' \in Contexts
         /\ toks' = Full(prog) /\ m' = Match(Full(prog)) /\ rs' = RenderInit
         /\ UNCHANGED <<prog, stack>>
Step == /\ phase = "run" /\ rs.pc <= Len(toks)
        /\ rs' = RenderStep(ctx, toks, m, rs)
        /\ UNCHANGED <<prog, stack, phase, ctx, toks, m>>
Done == /\ phase = "run" /\ rs.pc > Len(toks)
        /\ phase' = "done"
        /\ (Emit => PrintT("CASE " \o ToJson([tmpl |-> Write(toks), ctx |-> ctx, out |-> rs.out])))
        /\ UNCHANGED <<prog, stack, ctx, toks, m, rs>>
Next == Build \/ Start \/ Step \/ Done
Spec == Init /\ [][Next]_vars

ParseInvertsWrite ==
    phase = "done" => LET p == ParseTemplate(Write(toks)) IN p.ok /\ p.toks = toks
RenderIsMeaning ==
    phase = "done" => rs.out = Meaning(ctx, toks, m, 1, Len(toks), RenderInit).out
(* no stale scope: outside blocks no local variables, outside loops no item *)
Clean == phase = "done" => rs.blk = <<>> /\ ~rs.loop.on
InRange == phase = "run" => rs.ent <= Len(ctx.entries) /\ (rs.blk = BListing => rs.src \in 1..Len(ctx.sources))
=============================================================================
