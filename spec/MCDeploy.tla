------------------------------ MODULE MCDeploy ------------------------------
(* Histories of pushes, each with a failure or its death anywhere.          *)
EXTENDS Deploy, Json
CONSTANTS Revs, MaxOps, Show2
VARIABLES w, r, before, count, hist
vars == <<w, r, before, count, hist>>
Idle == [pc |-> "idle", rev |-> 0, id |-> 0, old |-> {}, rc |-> 0]
FirstBuild == [id |-> 100, rev |-> 1, st |-> "full"]
Worlds == {[link |-> NoLink, builds |-> {}, temps |-> {}],
           [link |-> LinkTo(100), builds |-> {FirstBuild}, temps |-> {}],
           [link |-> LinkTo(100), builds |-> {}, temps |-> {}],
           [link |-> Foreign, builds |-> {FirstBuild}, temps |-> {}],
           [link |-> [k |-> "thing", id |-> 0], builds |-> {FirstBuild}, temps |-> {}]}
Init == w \in Worlds /\ r = Idle /\ before = w /\ count = 0 /\ hist = <<>>
(* a push, or a rebuild of what is live *)
Op(kind, rev) == [kind |-> kind, rev |-> rev, fail |-> "no"]
Push(rev) == r.pc = "idle" /\ count < MaxOps /\ count' = count + 1 /\ before' = w /\ r' = Start(rev, count + 1) /\ hist' = Append(hist, Op("push", rev)) /\ UNCHANGED w
Rebuild == r.pc = "idle" /\ count < MaxOps /\ \E b \in Live(w) :
              count' = count + 1 /\ before' = w /\ r' = Start(b.rev, count + 1) /\ hist' = Append(hist, Op("rebuild", b.rev)) /\ UNCHANGED w
Note(f) == hist' = [hist EXCEPT ![Len(hist)].fail = f]
Failing == {"temp", "archive", "extract", "make", "link"}
Running == r.pc \notin {"idle", "end"}
Go == Running /\ LET x == Step(w, r, FALSE) IN w' = x[1] /\ r' = x[2] /\ UNCHANGED <<before, count, hist>>
Err == r.pc \in Failing /\ hist[Len(hist)].fail = "no" /\ LET x == Step(w, r, TRUE) IN w' = x[1] /\ r' = x[2] /\ Note(r.pc) /\ UNCHANGED <<before, count>>
Die == Running /\ hist[Len(hist)].fail = "no" /\ r' = [r EXCEPT !.pc = "end", !.rc = -1] /\ Note("kill-" \o r.pc) /\ UNCHANGED <<w, before, count>>
End == r.pc = "end" /\ r' = Idle /\ UNCHANGED <<w, before, count, hist>>
Next == (\E rev \in Revs : Push(rev)) \/ Rebuild \/ Go \/ Err \/ Die \/ End
Spec == Init /\ [][Next]_vars
(* at every moment *)
LiveIsFull == \A b \in Live(w) : b.st = "full"
LiveIsThere == w.link.k = "link" => Live(w) # {} \/ w.link.id = 100
(* every run, when it ends, is one of the three *)
Ends == r.pc = "end" =>
    CASE r.rc = 0 -> Succeeded(before, w, r.rev)
      [] r.rc = 1 -> Unchanged(before, w)
      [] OTHER -> Stopped(before, w, r.rev)
(* builds that are not live are only left by those that were killed *)
Tidy == (r.pc = "idle" /\ ~\E i \in 1..Len(hist) : hist[i].fail \notin Failing \cup {"no"})
            => Cardinality({b \in w.builds : b \notin Live(w) /\ b.id # 100}) = 0 /\ w.temps = {}
(* after anything, a push that is not disturbed succeeds *)
Recovers == r.pc = "end" /\ hist[Len(hist)].fail = "no" => (r.rc = 0 \/ before.link.k = "thing")
Case == (r.pc = "idle" /\ count = MaxOps /\ Show2) => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
