------------------------------- MODULE MCRefs -------------------------------
(* Which branch is deployed: all lists of reference updates.                *)
EXTENDS Deploy, SequencesExt, Json
CONSTANTS Refs, MaxLen
VARIABLES ups
Init == ups = <<>>
Next == Len(ups) < MaxLen /\ \E ref \in Refs, gone \in BOOLEAN :
            /\ \A i \in 1..Len(ups) : ups[i].branch # ref
            /\ ups' = Append(ups, [branch |-> ref, rev |-> Len(ups) + 1, gone |-> gone])
Spec == Init /\ [][Next]_ups
Pick(s) == Chosen({s[i] : i \in 1..Len(s)}, "refs/heads/master", "refs/heads/main")
Has(ref) == \E i \in 1..Len(ups) : ups[i].branch = ref /\ ~ups[i].gone
One == Cardinality(Pick(ups)) = (IF Has("refs/heads/master") \/ Has("refs/heads/main") THEN 1 ELSE 0)
(* the order does not matter, nor does anything else *)
Order == Pick(ups) = Pick(Reverse(ups))
Others == LET s == SelectSeq(ups, LAMBDA u : u.branch \in {"refs/heads/master", "refs/heads/main"} /\ ~u.gone) IN Pick(ups) = Pick(s)
Master == \A i \in 1..Len(ups) : ups[i].branch = "refs/heads/master" /\ ~ups[i].gone => Pick(ups) = {ups[i].rev}
Main == \A i \in 1..Len(ups) : ups[i].branch = "refs/heads/main" /\ ~ups[i].gone /\ ~Has("refs/heads/master") => Pick(ups) = {ups[i].rev}
Show == ups # <<>> => PrintT("CASE " \o ToJson([ups |-> ups]))
=============================================================================
