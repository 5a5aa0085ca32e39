----------------------------- MODULE Template -----------------------------
(***************************************************************************)
(* The template language: characters -> tokens -> nesting -> rendering.    *)
(*                                                                         *)
(* LexStep is the character machine, NestStep the nesting automaton,       *)
(* RenderStep the interpreter: the transitions of the system.  Meaning is  *)
(* the declarative (structured) meaning of a template, against which the   *)
(* interpreter is model checked in MCTemplate.                             *)
(***************************************************************************)
EXTENDS Text, Variables

---------------------------------------------------------------------------
(* Characters to tokens *)

KwBlock == T("block")
KwEndblock == T("endblock")
KwIf == T("if")
KwIfdef == T("ifdef")
KwIfndef == T("ifndef")
KwElse == T("else")
KwEndif == T("endif")
KwForeach == T("foreach")
KwEndforeach == T("endforeach")
BEntry == T("entry")
BListing == T("listing")
BOnce == T("listing_once")
BEmpty == T("listing_empty")
BLEntry == T("listing_entry")
BlockTypes == {BEntry, BListing, BOnce, BEmpty, BLEntry}
OpTexts == {T("<"), T(">"), T("<="), T(">="), T("=="), T("!=")}

(* a token: kind k, name n (variable, block type), operator op, operand arg,
   left and right whitespace cleaners *)
Tok(k, n) == [k |-> k, n |-> n, op |-> <<>>, arg |-> <<>>, l |-> FALSE, r |-> FALSE]
LexInit == [st |-> "text", buf |-> <<>>, toks |-> <<>>, tok |-> Tok("none", <<>>)]

Flush(m) == IF m.buf = <<>> THEN m.toks ELSE Append(m.toks, Tok("text", m.buf))
Fail(m) == [m EXCEPT !.st = "error"]
Go(m, st) == [m EXCEPT !.st = st]
Put1(m, st, c) == [m EXCEPT !.st = st, !.buf = <<c>>]
Add(m, c) == [m EXCEPT !.buf = Append(@, c)]

StartTok(m, k, st) == [m EXCEPT !.st = st, !.buf = <<>>, !.tok = [m.tok EXCEPT !.k = k]]

Keyword(m) ==
    CASE m.buf = KwBlock      -> StartTok(m, "block", "btype0")
      [] m.buf = KwEndblock   -> StartTok(m, "endblock", "end0")
      [] m.buf = KwIf         -> StartTok(m, "if", "name0")
      [] m.buf = KwIfdef      -> StartTok(m, "ifdef", "name0")
      [] m.buf = KwIfndef     -> StartTok(m, "ifndef", "name0")
      [] m.buf = KwElse       -> StartTok(m, "else", "end0")
      [] m.buf = KwEndif      -> StartTok(m, "endif", "end0")
      [] m.buf = KwForeach    -> StartTok(m, "foreach", "name0")
      [] m.buf = KwEndforeach -> StartTok(m, "endforeach", "end0")
      [] OTHER                -> Fail(m)

(* the end of a statement: '%' or a cleaner *)
EndStmt(m, c) == IF c = 37 THEN Go(m, "close") ELSE Fail(m)

AfterOperand(m, c) ==
    IF IsSpace(c) THEN m
    ELSE IF c = 45 THEN [m EXCEPT !.st = "end", !.tok.r = TRUE]
    ELSE EndStmt(m, c)

LexStep(m, c) ==
    CASE m.st = "text" -> IF c = 123 THEN Go(m, "open") ELSE Add(m, c)
      [] m.st = "open" ->
            IF c = 37 THEN [m EXCEPT !.st = "stmt0", !.toks = Flush(m), !.buf = <<>>, !.tok = Tok("none", <<>>)]
            ELSE IF c = 123 THEN [m EXCEPT !.st = "var0", !.toks = Flush(m), !.buf = <<>>, !.tok = Tok("var", <<>>)]
            ELSE [m EXCEPT !.st = "text", !.buf = @ \o <<123, c>>]
      [] m.st = "stmt0" ->
            IF c = 45 THEN [m EXCEPT !.st = "stmt", !.tok.l = TRUE]
            ELSE IF IsSpace(c) THEN Go(m, "stmt")
            ELSE IF c \in Lower THEN Put1(m, "kw", c)
            ELSE Fail(m)
      [] m.st = "stmt" ->
            IF IsSpace(c) THEN m
            ELSE IF c \in Lower THEN Put1(m, "kw", c) ELSE Fail(m)
      [] m.st = "kw" ->
            IF c \in Lower THEN Add(m, c)
            ELSE IF IsSpace(c) THEN Keyword(m) ELSE Fail(m)
      [] m.st = "btype0" ->
            IF IsSpace(c) THEN m
            ELSE IF c \in Lower THEN Put1(m, "btype", c) ELSE Fail(m)
      [] m.st = "btype" ->
            IF c \in Lower \/ c = 95 THEN Add(m, c)
            ELSE IF IsSpace(c) /\ m.buf \in BlockTypes
                 THEN [m EXCEPT !.st = "end0", !.tok.n = m.buf]
            ELSE Fail(m)
      [] m.st = "name0" ->
            IF IsSpace(c) THEN m
            ELSE IF c \in Upper THEN Put1(m, "name", c) ELSE Fail(m)
      [] m.st = "name" ->
            IF c \in NameChars THEN Add(m, c)
            ELSE IF IsSpace(c)
                 THEN [m EXCEPT !.st = IF m.tok.k = "if" THEN "op0" ELSE "end0", !.tok.n = m.buf]
            ELSE Fail(m)
      [] m.st = "op0" -> IF IsSpace(c) THEN m ELSE Put1(m, "op", c)
      [] m.st = "op" ->
            IF ~IsSpace(c) THEN Add(m, c)
            ELSE IF m.buf \in OpTexts THEN [m EXCEPT !.st = "arg0", !.tok.op = m.buf]
            ELSE Fail(m)
      [] m.st = "arg0" ->
            IF IsSpace(c) THEN m
            ELSE IF c \in Upper THEN Put1(m, "argvar", c)
            ELSE IF c = 34 THEN Put1(m, "argstr", c)
            ELSE Fail(m)
      [] m.st = "argstr" ->
            IF c = 34 /\ m.buf[Len(m.buf)] # 92
            THEN [m EXCEPT !.st = "end0", !.tok.arg = Append(m.buf, c)]
            ELSE Add(m, c)
      [] m.st = "argvar" ->
            IF c \in NameChars THEN Add(m, c)
            ELSE AfterOperand([m EXCEPT !.st = "end0", !.tok.arg = m.buf], c)
      [] m.st = "end0" -> AfterOperand(m, c)
      [] m.st = "end" -> EndStmt(m, c)
      [] m.st = "var0" ->
            IF IsSpace(c) THEN m
            ELSE IF c \in Upper THEN Put1(m, "var", c) ELSE Fail(m)
      [] m.st = "var" ->
            IF c \in NameChars THEN Add(m, c)
            ELSE IF IsSpace(c) THEN [m EXCEPT !.st = "varend", !.tok.n = m.buf]
            ELSE IF c = 125 THEN [m EXCEPT !.st = "close", !.tok.n = m.buf]
            ELSE Fail(m)
      [] m.st = "varend" ->
            IF IsSpace(c) THEN m ELSE IF c = 125 THEN Go(m, "close") ELSE Fail(m)
      [] m.st = "close" ->
            IF c = 125 THEN [m EXCEPT !.st = "text", !.buf = <<>>, !.toks = Append(@, m.tok)]
            ELSE Fail(m)
      [] m.st = "error" -> m

(* end of input: only between statements; a last brace is literal *)
LexEnd(m) ==
    CASE m.st = "text" -> [ok |-> TRUE, toks |-> Flush(m)]
      [] m.st = "open" -> [ok |-> TRUE, toks |-> Flush(Add(m, 123))]
      [] OTHER         -> [ok |-> FALSE, toks |-> <<>>]

RunLex(src) == LexEnd(FoldLeft(LexStep, LexInit, src))

---------------------------------------------------------------------------
(* Nesting: a stack automaton over tokens *)

Conditional == {"if", "ifdef", "ifndef"}
Top(s) == IF s = <<>> THEN "bottom" ELSE s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Bad == <<"bad">>
NestStep(s, t) ==
    CASE s = Bad -> Bad
      [] t.k = "block" -> IF "block" \in Elems(s) THEN Bad ELSE Append(s, "block")
      [] t.k = "endblock" -> IF Top(s) = "block" THEN Pop(s) ELSE Bad
      [] t.k \in Conditional -> Append(s, "if")
      [] t.k = "else" -> IF Top(s) = "if" THEN Append(Pop(s), "else") ELSE Bad
      [] t.k = "endif" -> IF Top(s) \in {"if", "else"} THEN Pop(s) ELSE Bad
      [] t.k = "foreach" -> IF "foreach" \in Elems(s) THEN Bad ELSE Append(s, "foreach")
      [] t.k = "endforeach" -> IF Top(s) = "foreach" THEN Pop(s) ELSE Bad
      [] OTHER -> s
WellNested(toks) == FoldLeft(NestStep, <<>>, toks) = <<>>

(* Matching positions: for every opening token the closing one (and for a
   conditional its else, or else its endif); for an else its endif *)
MatchStep(a, i, t) ==
    CASE t.k \in Conditional \cup {"block", "foreach"} ->
            [a EXCEPT !.stack = Append(@, <<i>>)]
      [] t.k = "else" ->
            [a EXCEPT !.stack = Append(Pop(@), Append(Top(@), i))]
      [] t.k \in {"endif", "endblock", "endforeach"} ->
            LET f == Top(a.stack)
            IN [a EXCEPT !.stack = Pop(@),
                         !.end = [j \in (DOMAIN @) \cup Elems(f) |->
                                     IF j \in Elems(f) THEN i ELSE @[j]],
                         !.alt = [j \in (DOMAIN @) \cup {f[1]} |->
                                     IF j = f[1] THEN (IF Len(f) = 2 THEN f[2] ELSE i) ELSE @[j]]]
      [] OTHER -> a
RECURSIVE MatchFrom(_, _, _)
MatchFrom(a, toks, i) ==
    IF i > Len(toks) THEN a ELSE MatchFrom(MatchStep(a, i, toks[i]), toks, i + 1)
Match(toks) == MatchFrom([stack |-> <<>>, end |-> <<>>, alt |-> <<>>], toks, 1)

---------------------------------------------------------------------------
(* Whitespace cleaners *)
TrimAt(toks, i) ==
    IF toks[i].k # "text" THEN toks[i]
    ELSE LET a == toks[i].n
             b == IF i > 1 /\ toks[i-1].r THEN LStrip(a) ELSE a
             c == IF i < Len(toks) /\ toks[i+1].l THEN RStrip(b) ELSE b
         IN [toks[i] EXCEPT !.n = c]
Trim(toks) == TLCEval([i \in 1..Len(toks) |-> TrimAt(toks, i)])

(* The parser *)
ParseTemplate(src) ==
    LET x == RunLex(src)
    IN IF x.ok /\ WellNested(x.toks) THEN [ok |-> TRUE, toks |-> Trim(x.toks)]
       ELSE [ok |-> FALSE, toks |-> <<>>]

---------------------------------------------------------------------------
(* Rendering.  The context ctx: listing (mode), global (assoc), sources (a
   sequence of assocs) and entries (a sequence of [ok, env]; an entry may be
   absent: ok = FALSE).

   leak is a named deviation of the code, pinned by one of its tests: after a
   block that was skipped the variables of the last rendered source stay
   visible until the next block.  Without it (the documented behaviour) local
   variables are visible inside active blocks only. *)

NoLoop == [on |-> FALSE, name |-> <<>>, items |-> <<>>, i |-> 0]
NoEnv == <<>>
(* blk: the block being rendered; src, ent: the current source and the number
   of entries used; loc: the current local variables, if inside *)
RenderInit == [pc |-> 1, out |-> <<>>, blk |-> <<>>, src |-> 0, ent |-> 0,
               inside |-> FALSE, loc |-> NoEnv, loop |-> NoLoop]

Scope(ctx, s) == [global |-> ctx.global, local |-> IF s.inside THEN s.loc ELSE NoEnv, loop |-> s.loop]

(* the local variables of an active block *)
BlockEnv(ctx, type, src, ent) ==
    CASE type = BEntry -> IF ctx.sources = <<>> THEN NoEnv ELSE ctx.sources[1]
      [] type = BListing -> ctx.sources[src]
      [] type = BLEntry -> ctx.entries[ent].env
      [] OTHER -> NoEnv

Used(ctx, s, type) == IF type = BLEntry THEN Min2(s.ent + 1, Len(ctx.entries)) ELSE s.ent
Enter(ctx, s, type, src) ==
    [s EXCEPT !.blk = type, !.src = src, !.ent = Used(ctx, s, type), !.inside = TRUE,
              !.loc = BlockEnv(ctx, type, src, Used(ctx, s, type))]
Leave(s) == [s EXCEPT !.blk = <<>>, !.inside = FALSE]
Skip(ctx, s, type) ==
    [s EXCEPT !.ent = Used(ctx, s, type),
              !.inside = ctx.leak,
              !.loc = IF ctx.listing /\ type \in {BListing, BOnce, BEmpty} THEN NoEnv ELSE @]

BlockActive(ctx, s, type) ==
    CASE type = BEntry -> ~ctx.listing
      [] type = BListing -> ctx.listing /\ ctx.sources # <<>>
      [] type = BOnce -> ctx.listing
      [] type = BEmpty -> ctx.listing /\ ctx.sources = <<>>
      [] type = BLEntry -> ctx.listing /\ s.ent < Len(ctx.entries) /\ ctx.entries[s.ent + 1].ok

IsString(a) == Len(a) >= 2 /\ a[1] = 34
OperandValue(sc, a) ==
    IF IsString(a) THEN [ok |-> TRUE, v |-> SubSeq(a, 2, Len(a) - 1)] ELSE Resolve(sc, a)

Compare(op, a, b) ==
    LET d == Cmp(a, b)
    IN CASE op = T("<") -> d < 0
         [] op = T(">") -> d > 0
         [] op = T("<=") -> d <= 0
         [] op = T(">=") -> d >= 0
         [] op = T("==") -> d = 0
         [] op = T("!=") -> d # 0

Holds(sc, t) ==
    LET x == Resolve(sc, t.n)
    IN CASE t.k = "ifdef" -> x.ok
         [] t.k = "ifndef" -> ~x.ok
         [] t.k = "if" -> LET y == OperandValue(sc, t.arg)
                          IN x.ok /\ y.ok /\ Compare(t.op, x.v, y.v)

ListItems(sc, n) == LET x == Plain(sc, n) IN IF x.ok THEN Words(x.v) ELSE <<>>

RenderStep(ctx, toks, m, s) ==
    LET t == toks[s.pc]
        next == [s EXCEPT !.pc = @ + 1]
    IN CASE t.k = "text" -> [next EXCEPT !.out = @ \o t.n]
         [] t.k = "var" ->
              LET x == Resolve(Scope(ctx, s), t.n)
              IN IF x.ok THEN [next EXCEPT !.out = @ \o x.v] ELSE next
         [] t.k = "block" ->
              IF BlockActive(ctx, s, t.n) THEN Enter(ctx, next, t.n, 1)
              ELSE [Skip(ctx, s, t.n) EXCEPT !.pc = m.end[s.pc] + 1]
         [] t.k = "endblock" ->
              IF s.blk = BListing /\ s.src < Len(ctx.sources)
              THEN [Enter(ctx, s, BListing, s.src + 1) EXCEPT
                             !.pc = 1 + CHOOSE j \in DOMAIN m.end : m.end[j] = s.pc]
              ELSE Leave(next)
         [] t.k \in Conditional ->
              IF Holds(Scope(ctx, s), t) THEN next ELSE [s EXCEPT !.pc = m.alt[s.pc] + 1]
         [] t.k = "else" -> [s EXCEPT !.pc = m.end[s.pc] + 1]
         [] t.k = "endif" -> next
         [] t.k = "foreach" ->
              LET items == ListItems(Scope(ctx, s), t.n)
              IN IF items = <<>> THEN [s EXCEPT !.pc = m.end[s.pc] + 1]
                 ELSE [next EXCEPT !.loop = [on |-> TRUE, name |-> t.n, items |-> items, i |-> 1]]
         [] t.k = "endforeach" ->
              IF s.loop.i < Len(s.loop.items)
              THEN [s EXCEPT !.loop.i = @ + 1,
                             !.pc = 1 + CHOOSE j \in DOMAIN m.end : m.end[j] = s.pc]
              ELSE [next EXCEPT !.loop = NoLoop]

RECURSIVE RunFrom(_, _, _, _)
RunFrom(ctx, toks, m, s) ==
    IF s.pc > Len(toks) THEN s ELSE RunFrom(ctx, toks, m, RenderStep(ctx, toks, m, s))
Render(ctx, toks) == RunFrom(ctx, toks, Match(toks), RenderInit).out

---------------------------------------------------------------------------
(* Declarative meaning: by recursion over the structure.  The value is what
   the region toks[lo..hi] contributes (out) and what it leaves behind. *)
RECURSIVE Meaning(_, _, _, _, _, _)
RECURSIVE OverSources(_, _, _, _, _, _, _)
RECURSIVE OverItems(_, _, _, _, _, _)
Adds(s, v) == [s EXCEPT !.out = @ \o v]
Meaning(ctx, toks, m, lo, hi, s) ==
    IF lo > hi THEN s
    ELSE
    LET t == toks[lo]
        sc == Scope(ctx, s)
        last == IF lo \in DOMAIN m.end THEN m.end[lo] ELSE lo
        here ==
          CASE t.k = "text" -> Adds(s, t.n)
            [] t.k = "var" -> Adds(s, IF Resolve(sc, t.n).ok THEN Resolve(sc, t.n).v ELSE <<>>)
            [] t.k \in Conditional ->
                 IF Holds(sc, t) THEN Meaning(ctx, toks, m, lo + 1, m.alt[lo] - 1, s)
                 ELSE Meaning(ctx, toks, m, m.alt[lo] + 1, last - 1, s)
            [] t.k = "foreach" ->
                 LET items == ListItems(sc, t.n)
                 IN OverItems(ctx, toks, m, lo,
                              [s EXCEPT !.loop = [on |-> TRUE, name |-> t.n, items |-> items, i |-> 1]], s)
            [] t.k = "block" ->
                 IF ~BlockActive(ctx, s, t.n) THEN Skip(ctx, s, t.n)
                 ELSE IF t.n = BListing THEN OverSources(ctx, toks, m, lo, last, s, 1)
                 ELSE Leave(Meaning(ctx, toks, m, lo + 1, last - 1, Enter(ctx, s, t.n, 1)))
    IN Meaning(ctx, toks, m, last + 1, hi, here)

OverSources(ctx, toks, m, lo, last, s, k) ==
    IF k > Len(ctx.sources) THEN Leave(s)
    ELSE OverSources(ctx, toks, m, lo, last,
                     Meaning(ctx, toks, m, lo + 1, last - 1, Enter(ctx, s, BListing, k)), k + 1)

OverItems(ctx, toks, m, lo, s, outer) ==
    IF s.loop.i > Len(s.loop.items) THEN [s EXCEPT !.loop = outer.loop]
    ELSE LET a == Meaning(ctx, toks, m, lo + 1, m.end[lo] - 1, s)
         IN OverItems(ctx, toks, m, lo, [a EXCEPT !.loop.i = @ + 1], outer)
=============================================================================
