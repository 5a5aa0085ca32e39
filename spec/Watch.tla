------------------------------- MODULE Watch -------------------------------
(***************************************************************************)
(* blogc-make watch: the outputs are brought up to date again and again,   *)
(* while the inputs change.                                                *)
(*                                                                         *)
(* Inputs: [t: modification time, v: version, ok: whether it can be used]. *)
(* The first input is the settings file, which is read by the watcher      *)
(* itself; the others are read when an output is compiled.  Outputs: [t,   *)
(* made: the version of every input].  The watcher w: pc; st: the time of  *)
(* the settings when they were looked at; cfg, ct: what was read, and its  *)
(* time; since: everything older is made again; rec: the times of the      *)
(* other inputs; k: an index.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Files,     \* the other inputs
          Uses,      \* a sequence: of each output, which of them it is made from
          Force,     \* settings that were read again make everything old
          Early      \* the time of the settings is taken before they are read
N == Len(Uses)
Cfg == "cfg"
Inputs == {Cfg} \cup Files
Missing == [t |-> 0, made |-> [f \in {} |-> 0]]

Current(in, out) == \A k \in 1..N : out[k].t > 0 /\ out[k].made = [f \in {Cfg} \cup Uses[k] |-> in[f].v]
Usable(in) == \A f \in Inputs : in[f].ok

Stale(w, out, k) ==
    \/ out[k].t = 0 \/ w.ct > out[k].t \/ w.since > out[k].t
    \/ \E f \in Uses[k] : w.rec[f] > out[k].t
(* one step of the watcher: <<w, out, clock>> *)
Next1(w, in, out, clock) ==
    CASE w.pc = "look" -> <<[w EXCEPT !.pc = IF in[Cfg].t > w.ct THEN "read" ELSE "stat", !.st = in[Cfg].t], out, clock>>
      [] w.pc = "read" ->
            IF ~in[Cfg].ok THEN <<[w EXCEPT !.pc = "idle"], out, clock>>
            ELSE <<[w EXCEPT !.pc = IF Early THEN "stat" ELSE "late", !.cfg = in[Cfg].v, !.ct = w.st, !.since = IF Force THEN clock + 1 ELSE @], out, clock + 1>>
      [] w.pc = "late" -> <<[w EXCEPT !.pc = "stat", !.ct = in[Cfg].t], out, clock>>
      [] w.pc = "stat" -> <<[w EXCEPT !.pc = "build", !.k = 1, !.rec = [f \in Files |-> IF in[f].t > @[f] THEN in[f].t ELSE @[f]]], out, clock>>
      [] w.pc = "build" ->
            IF w.k > N THEN <<[w EXCEPT !.pc = "idle"], out, clock>>
            ELSE IF ~Stale(w, out, w.k) THEN <<[w EXCEPT !.k = @ + 1], out, clock>>
            ELSE <<[w EXCEPT !.pc = "compile"], out, clock>>
      [] w.pc = "compile" ->
            IF \E f \in Uses[w.k] : ~in[f].ok THEN <<[w EXCEPT !.pc = "idle"], out, clock>>
            ELSE <<[w EXCEPT !.pc = "build", !.k = @ + 1],
                   [out EXCEPT ![w.k] = [t |-> clock + 1, made |-> [f \in {Cfg} \cup Uses[w.k] |-> IF f = Cfg THEN w.cfg ELSE in[f].v]]], clock + 1>>
      [] OTHER -> <<[w EXCEPT !.pc = "look"], out, clock>>
Start(in, clock) == [pc |-> "look", st |-> in[Cfg].t, cfg |-> in[Cfg].v, ct |-> in[Cfg].t, since |-> 0, rec |-> [f \in Files |-> in[f].t], k |-> 1]
=============================================================================
