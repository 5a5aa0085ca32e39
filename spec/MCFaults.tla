------------------------------ MODULE MCFaults ------------------------------
(***************************************************************************)
(* Builds of plans of up to MaxPlan outputs under every set of faults, and *)
(* the writing of a page of every size through a buffer onto a device with *)
(* every limit, where the writer may die at any time.                      *)
(***************************************************************************)
EXTENDS Faults
CONSTANTS MaxPlan, MaxPage, Buffer

Ins == {<<1>>, <<2>>}
Outs == <<<<11>>, <<12>>, <<13>>, <<14>>>>
VARIABLES plan, f, b, w
vars == <<plan, f, b, w>>

NoWriter == [st |-> "off", page |-> 0, limit |-> 0, buf |-> 0, disk |-> 0, given |-> 0, ok |-> TRUE, exists |-> FALSE]
Old == <<99>>
Init == /\ plan = <<>> /\ f = NoFaults
        /\ b = [st |-> "plan", i |-> 1, files |-> <<>>] /\ w = NoWriter

Plan == /\ b.st = "plan" /\ w.st = "off" /\ Len(plan) < MaxPlan
        /\ \E s \in SUBSET Ins, n \in {1, 5}, t \in {Gone, <<Len(plan) + 1>>} :
             plan' = Append(plan, [out |-> Outs[Len(plan) + 1], ins |-> SetToSeq(s), text |-> t, size |-> n])
        /\ UNCHANGED <<f, b, w>>
Break == /\ b.st = "plan" /\ plan # <<>>
         /\ \E u \in SUBSET Ins, s \in SUBSET {Outs[i] : i \in 1..Len(plan)}, l \in {-1, 3}, c \in 0..Len(plan), old \in BOOLEAN :
              /\ f' = [unread |-> SetToSeq(u), sealed |-> SetToSeq(s), limit |-> l, child |-> c]
              /\ b' = BuildStart(IF old THEN [i \in 1..Len(plan) |-> <<Outs[i], Old>>] ELSE <<<<<<77>>, Old>>>>)
         /\ UNCHANGED <<plan, w>>
Make == /\ b.st = "run" /\ b' \in BuildSteps(b, f, plan) /\ UNCHANGED <<plan, f, w>>

(* the writer: gives bytes to the buffer, the buffer goes to the device when it
   is full, and when the file is closed; on an error the file is removed *)
Open == /\ b.st = "plan" /\ plan = <<>> /\ w.st = "off"
        /\ \E p \in 0..MaxPage, l \in 0..MaxPage :
             w' = [NoWriter EXCEPT !.st = "write", !.page = p, !.limit = l, !.exists = TRUE]
        /\ UNCHANGED <<plan, f, b>>
Push(x) == LET k == Min2(x.buf, x.limit - x.disk)
           IN [x EXCEPT !.disk = @ + k, !.buf = 0, !.ok = @ /\ k = x.buf]
Give == /\ w.st = "write" /\ w.given < w.page
        /\ w' = LET x == [w EXCEPT !.given = @ + 1, !.buf = @ + 1] IN IF x.buf = Buffer THEN Push(x) ELSE x
        /\ UNCHANGED <<plan, f, b>>
Close == /\ w.st = "write" /\ w.given = w.page
         /\ w' = LET x == Push(w) IN IF x.ok THEN [x EXCEPT !.st = "ok"] ELSE [x EXCEPT !.st = "failed", !.exists = FALSE]
         /\ UNCHANGED <<plan, f, b>>
Die == /\ w.st = "write" /\ w' = [w EXCEPT !.st = "dead"] /\ UNCHANGED <<plan, f, b>>
Next == Plan \/ Break \/ Make \/ Open \/ Give \/ Close \/ Die
Spec == Init /\ [][Next]_vars /\ WF_vars(Make) /\ WF_vars(Give) /\ WF_vars(Close)

(* success means that everything is there; a failure that what came before the
   first fault is complete, and that nothing after it was touched *)
Text1(p) == Look(b.files, p)
K == FirstFault(f, plan)
Success == b.st = "ok" => K = 0 /\ \A i \in 1..Len(plan) : Text1(plan[i].out) = plan[i].text
Failure == b.st = "failed" =>
    /\ K > 0
    /\ \A i \in 1..(K - 1) : Text1(plan[i].out) = plan[i].text
    /\ \A i \in K..Len(plan) : Text1(plan[i].out) \in {Old, Gone}
    /\ \A i \in (K + 1)..Len(plan) : \A j \in (K + 1)..Len(plan) : Text1(plan[i].out) = Text1(plan[j].out)
Stranger == b.st \in {"ok", "failed"} => (Defined(b.files, <<77>>) => Value(b.files, <<77>>) = Old)
Possible == b.st \in {"ok", "failed"} => \E x \in AnyEnds(<<<<<<77>>, Old>>>> \o [i \in 1..Len(plan) |-> <<plan[i].out, Old>>], plan) \cup AnyEnds(<<<<<<77>>, Old>>>>, plan) :
    x.st = b.st /\ \A p \in {Outs[i] : i \in 1..Len(plan)} : Look(x.files, p) = Text1(p)
(* the page is on the device when success is reported, and success is reported
   whenever it fits; a failure leaves no file *)
Wrote == /\ w.st = "ok" => w.disk = w.page
         /\ w.st \in {"ok", "failed"} => (w.st = "ok") = (w.page <= w.limit)
         /\ w.st = "failed" => ~w.exists
Ends == <>[](b.st # "run")
=============================================================================
