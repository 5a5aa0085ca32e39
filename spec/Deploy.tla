------------------------------- MODULE Deploy -------------------------------
(***************************************************************************)
(* What a push does to the website: the hook pre-receive of                *)
(* blogc-git-receiver.                                                     *)
(*                                                                         *)
(* A world is [link: what is at the place of the live link, builds: the    *)
(* set of builds [id, rev, st], temps: the temporary directories that are  *)
(* left].  A link is [k: "none", "link", "other", "thing" (not a link)],   *)
(* id: the build, for a link to a build that may be gone.                  *)
(* st of a build: "part", "full".                                          *)
(*                                                                         *)
(* A deploy is what a run has to do: [do: "none" (nothing, and success),   *)
(* "refuse", "build"], rev and what becomes of it.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoLink == [k |-> "none", id |-> 0]
Foreign == [k |-> "other", id |-> 0]
LinkTo(b) == [k |-> "link", id |-> b]
Live(w) == {b \in w.builds : w.link.k = "link" /\ b.id = w.link.id}

(* the branch that is deployed.  updates: [branch, rev, gone: it is deleted];
   the revision, if there is one *)
Given(updates, name) == {u \in updates : u.branch = name /\ ~u.gone}
Chosen(updates, master, main) ==
    LET m == Given(updates, master)
        n == Given(updates, main)
    IN IF m # {} THEN {(CHOOSE u \in m : TRUE).rev} ELSE IF n # {} THEN {(CHOOSE u \in n : TRUE).rev} ELSE {}

(***************************************************************************)
(* The steps of a run.  r: [pc, rev, id, old, rc], on a world.             *)
(***************************************************************************)
Steps == <<"temp", "archive", "extract", "make", "check", "link", "sweep", "clean">>
Start(rev, id) == [pc |-> "temp", rev |-> rev, id |-> id, old |-> {}, rc |-> 0]
(* what fails: the step, and for "make" how far it came *)
Moved(w, r) == w.link = LinkTo(r.id)
Step(w, r, fail) ==
    CASE r.pc = "temp" ->
            IF fail THEN <<w, [r EXCEPT !.pc = "end", !.rc = 1]>>
            ELSE <<[w EXCEPT !.temps = @ \cup {r.id}], [r EXCEPT !.pc = "archive"]>>
      [] r.pc \in {"archive", "extract"} ->
            IF fail THEN <<w, [r EXCEPT !.pc = "clean", !.rc = 1]>>
            ELSE <<w, [r EXCEPT !.pc = IF @ = "archive" THEN "extract" ELSE "make"]>>
      [] r.pc = "make" ->
            IF fail THEN <<[w EXCEPT !.builds = @ \cup {[id |-> r.id, rev |-> r.rev, st |-> "part"]}], [r EXCEPT !.pc = "undo", !.rc = 1]>>
            ELSE <<[w EXCEPT !.builds = @ \cup {[id |-> r.id, rev |-> r.rev, st |-> "part"]}], [r EXCEPT !.pc = "made"]>>
      [] r.pc = "made" ->
            <<[w EXCEPT !.builds = {b \in @ : b.id # r.id} \cup {[id |-> r.id, rev |-> r.rev, st |-> "full"]}], [r EXCEPT !.pc = "link"]>>
      [] r.pc = "link" ->
            IF fail \/ w.link.k = "thing" THEN <<w, [r EXCEPT !.pc = "undo", !.rc = 1]>>
            ELSE <<[w EXCEPT !.link = LinkTo(r.id)], [r EXCEPT !.pc = "sweep", !.old = {b.id : b \in Live(w)}]>>
      [] r.pc = "undo" -> <<[w EXCEPT !.builds = {b \in @ : b.id # r.id}], [r EXCEPT !.pc = "clean"]>>
      [] r.pc = "sweep" -> IF r.old = {} THEN <<w, [r EXCEPT !.pc = "clean"]>>
                           ELSE <<[w EXCEPT !.builds = {IF b.id \in r.old THEN [b EXCEPT !.st = "part"] ELSE b : b \in @}], [r EXCEPT !.pc = "swept"]>>
      [] r.pc = "swept" -> <<[w EXCEPT !.builds = {b \in @ : b.id \notin r.old}], [r EXCEPT !.pc = "clean"]>>
      [] r.pc = "clean" -> <<[w EXCEPT !.temps = @ \ {r.id}], [r EXCEPT !.pc = "end"]>>

(***************************************************************************)
(* A whole run: what the world may be afterwards.                          *)
(***************************************************************************)
Unchanged(w, w2) == w2 = w
Succeeded(w, w2, rev) ==
    \E b \in w2.builds :
        /\ b.st = "full" /\ b.rev = rev /\ b \notin w.builds /\ ~(\E x \in w.builds : x.id = b.id)
        /\ w2.link = LinkTo(b.id)
        /\ w2.builds = (w.builds \ Live(w)) \cup {b}
        /\ w2.temps = w.temps
(* killed in the middle, or unable to remove things *)
Stopped(w, w2, rev) ==
    /\ w.temps \subseteq w2.temps /\ Cardinality(w2.temps \ w.temps) <= 1
    /\ w.builds \ Live(w) \subseteq w2.builds
    /\ \E new \in {{}} \cup {{b} : b \in w2.builds} :
        /\ \A b \in new : b.rev = rev /\ ~(\E x \in w.builds : x.id = b.id)
        /\ \/ /\ w2.link = w.link /\ w2.builds = w.builds \cup new
           \/ /\ \E b \in new : b.st = "full" /\ w2.link = LinkTo(b.id)
              (* what was live may be on its way out *)
              /\ \A b \in w2.builds \ new : \E x \in w.builds : x.id = b.id /\ (b = x \/ x \in Live(w))
=============================================================================
