------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* blogc-runserver and its clients.  A client is [sent: 0 nothing, 1 a     *)
(* part of the request line, 2 the whole request; eof: it has closed its   *)
(* sending side; drop: it has closed the connection; big: what it asks for *)
(* does not fit into any buffer; read: it receives].  conns is the         *)
(* sequence of clients in the order in which they connected.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Fresh(big) == [sent |-> 0, eof |-> FALSE, drop |-> FALSE, big |-> big, read |-> ~big]
(* the server has all it needs to answer *)
Complete(x) == x.sent = 2 \/ x.eof \/ x.drop
(* the server can get rid of the answer *)
Taken(x) == x.read \/ x.drop \/ x.sent < 2
Finishes(x) == Complete(x) /\ Taken(x)

(* who is finished when nothing is left to do, with n threads: clients are
   admitted in their order as long as there are free threads *)
RECURSIVE SettleFrom(_, _, _, _)
SettleFrom(conns, cl, n, done) ==
    LET waiting == SelectSeq(conns, LAMBDA c : c \notin done)
        inside == {waiting[i] : i \in 1..(IF Len(waiting) < n THEN Len(waiting) ELSE n)}
        more == {c \in inside : Finishes(cl[c])}
    IN IF more = {} THEN done ELSE SettleFrom(conns, cl, n, done \cup more)
Settle(conns, cl, n) == SettleFrom(conns, cl, n, {})

(* steps of clients: <<kind, client>> *)
Can(k, c, conns, cl) ==
    LET in == \E i \in 1..Len(conns) : conns[i] = c
        x == cl[c]
    IN IF k \in {"conn", "all"} THEN ~in
       ELSE /\ in /\ ~x.drop
            /\ CASE k = "part" -> x.sent = 0 /\ ~x.eof
                 [] k = "rest" -> x.sent < 2 /\ ~x.eof
                 [] k = "eof" -> ~x.eof
                 [] k = "drop" -> TRUE
                 [] k = "read" -> x.big /\ ~x.read
Kinds == {"conn", "all", "part", "rest", "eof", "drop", "read"}
Conns(k, c, conns) == IF k \in {"conn", "all"} THEN Append(conns, c) ELSE conns
Changed(k, x) ==
    CASE k = "conn" -> x
      [] k \in {"all", "rest"} -> [x EXCEPT !.sent = 2]
      [] k = "part" -> [x EXCEPT !.sent = 1]
      [] k = "eof" -> [x EXCEPT !.eof = TRUE]
      [] k = "drop" -> [x EXCEPT !.drop = TRUE]
      [] k = "read" -> [x EXCEPT !.read = TRUE]
=============================================================================
