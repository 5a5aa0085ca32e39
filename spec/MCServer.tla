------------------------------ MODULE MCServer ------------------------------
(***************************************************************************)
(* The server with Slots threads and clients that do what they want at any *)
(* time: accepting, answering and finishing are separate steps.  Checked:  *)
(* nobody gets anything but the answer to the own request, once; whenever  *)
(* there is nothing left to do, exactly those of Settle are finished; and  *)
(* as long as fewer clients than threads stall, everybody is served.       *)
(***************************************************************************)
EXTENDS Server
CONSTANTS Clients, Bigs, Slots
VARIABLES conns, cl, queue, slot, out
vars == <<conns, cl, queue, slot, out>>
Nobody == 0
Init == /\ conns = <<>> /\ cl = [c \in Clients |-> Fresh(c \in Bigs)]
        /\ queue = <<>> /\ slot = [s \in 1..Slots |-> [c |-> Nobody, st |-> "free"]]
        /\ out = [c \in Clients |-> <<>>]
Client == \E c \in Clients : \E k \in Kinds :
    /\ Can(k, c, conns, cl)
    /\ conns' = Conns(k, c, conns) /\ cl' = [cl EXCEPT ![c] = Changed(k, @)]
    /\ queue' = IF k \in {"conn", "all"} THEN Append(queue, c) ELSE queue
    /\ UNCHANGED <<slot, out>>
Accept == /\ queue # <<>>
          /\ \E s \in 1..Slots : /\ slot[s].st = "free"
                                 /\ slot' = [slot EXCEPT ![s] = [c |-> Head(queue), st |-> "read"]]
          /\ queue' = Tail(queue) /\ UNCHANGED <<conns, cl, out>>
Reply(s) == /\ slot[s].st = "read" /\ Complete(cl[slot[s].c])
            /\ out' = [out EXCEPT ![slot[s].c] = Append(@, slot[s].c)]
            /\ slot' = [slot EXCEPT ![s].st = "write"] /\ UNCHANGED <<conns, cl, queue>>
Finish(s) == /\ slot[s].st = "write" /\ Taken(cl[slot[s].c])
             /\ slot' = [slot EXCEPT ![s] = [c |-> Nobody, st |-> "free"]] /\ UNCHANGED <<conns, cl, queue, out>>
Serve == Accept \/ \E s \in 1..Slots : Reply(s) \/ Finish(s)
Next == Client \/ Serve
Spec == Init /\ [][Next]_vars /\ WF_vars(Accept) /\ \A s \in 1..Slots : WF_vars(Reply(s)) /\ WF_vars(Finish(s))

Busy == {slot[s].c : s \in 1..Slots} \ {Nobody}
Known == {conns[i] : i \in 1..Len(conns)}
Waiting == {queue[i] : i \in 1..Len(queue)}
Done == Known \ (Busy \cup Waiting)
Own == \A c \in Clients : out[c] \in {<<>>, <<c>>} /\ (c \in Done => out[c] = <<c>>)
Quiet == ~ENABLED Serve
Settled == /\ Done \subseteq Settle(conns, cl, Slots)
           /\ Quiet => Done = Settle(conns, cl, Slots)
Stalled == {c \in Known : ~Finishes(cl[c])}
Served == \A c \in Clients : (<>[](Cardinality(Stalled) < Slots)) => []((c \in Known /\ Finishes(cl[c])) => <>(c \in Done))
=============================================================================
