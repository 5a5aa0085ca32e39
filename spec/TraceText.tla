----------------------------- MODULE TraceText -----------------------------
(* Text inputs as the programs read them, judged by Utf8.                   *)
EXTENDS Utf8, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: kind, and the input in three parts: pre, body, post (body is the
   text that is shown, the others are what is needed around it); observed: ok,
   out (what was shown), err (an error was reported) *)
Expected(c) ==
    LET file == c.pre \o c.body \o c.post
    IN CASE c.kind = "define" -> [ok |-> Utf8Valid(c.body), out |-> c.body]
         [] c.kind = "template" -> LET r == ReadText(file) IN [ok |-> r.ok, out |-> r.text]
         [] OTHER -> [ok |-> ReadText(file).ok, out |-> c.body]
Agrees(c, e) ==
    /\ c.ok = e.ok
    /\ IF e.ok THEN c.out = e.out ELSE c.out = <<>> /\ c.err
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
