----------------------------- MODULE TraceHttp -----------------------------
(* Recorded answers of blogc-runserver, judged by Http.                     *)
EXTENDS Http, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: tree, root (as its components), request, got: whole (a complete
   HTTP response, with as many bytes of body as it says), closed (nothing was
   received), status, type, location, body.  (Long contents and bodies are
   digests.) *)
Expected(c) == TLCEval(Respond(c.tree, c.root, c.request))
HasPart(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
Leaks(c) == \E i \in 1..Len(c.tree) : c.tree[i][2].k = "file" /\ Len(c.tree[i][2].d) > 7 /\ HasPart(c.got.body, c.tree[i][2].d)
Agrees(c, e) ==
    IF RequestLine(c.request) = <<>> THEN c.got.closed \/ (c.got.whole /\ c.got.status = 400)
    ELSE /\ c.got.whole /\ c.got.status = e.status
         /\ e.status = 200 => c.got.type = e.type /\ c.got.body = e.body
         /\ e.status = 302 => c.got.location = e.location
         /\ e.status # 200 => ~Leaks(c)
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
