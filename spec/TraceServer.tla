---------------------------- MODULE TraceServer ----------------------------
(* Scripts of clients, run against the real server, judged by Server (who   *)
(* is served when) and Http (what they get).                                *)
EXTENDS Http, Server, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.VP_CASES)

(* a case: slots, bigs, script (k, c), seen (after each step, those whose
   connection the server has closed), sent (the bytes each client has sent),
   got (what each has received), tree, root; probe: a last client, when all
   the others are gone *)
RECURSIVE Play(_, _, _, _, _, _)
Play(script, i, conns, cl, n, acc) ==
    IF i > Len(script) THEN acc
    ELSE LET k == script[i].k
             c == script[i].c
             conns2 == Conns(k, c, conns)
             cl2 == [cl EXCEPT ![c] = Changed(k, @)]
             done == {d \in Settle(conns2, cl2, n) : ~cl2[d].drop}
         IN Play(script, i + 1, conns2, cl2, n, Append(acc, SetToSortSeq(done, LAMBDA x, y : x < y)))
Expected(c) == TLCEval([
    seen |-> Play(c.script, 1, <<>>, [i \in 1..Len(c.sent) |-> Fresh(\E j \in 1..Len(c.bigs) : c.bigs[j] = i)], c.slots, <<>>),
    answers |-> [i \in 1..Len(c.sent) |-> Respond(c.tree, c.root, c.sent[i])],
    probe |-> Respond(c.tree, c.root, c.probe)])
Fits(sent, g, e) ==
    IF RequestLine(sent) = <<>> THEN g.closed \/ (g.whole /\ g.status = 400)
    ELSE /\ g.whole /\ g.status = e.status
         /\ e.status = 200 => g.type = e.type /\ g.body = e.body
         /\ e.status = 302 => g.location = e.location
Agrees(c, e) ==
    /\ c.seen = e.seen
    /\ LET last == IF c.seen = <<>> THEN <<>> ELSE e.seen[Len(e.seen)]
       IN \A i \in 1..Len(last) : Fits(c.sent[last[i]], c.got[last[i]], e.answers[last[i]])
    /\ Fits(c.probe, c.last, e.probe)
VARIABLES lane, pos, bad
INSTANCE JudgeLoop
=============================================================================
