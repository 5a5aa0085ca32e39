-------------------------------- MODULE MCCli --------------------------------
(***************************************************************************)
(* Every argument vector of up to MaxArgs arguments of a pool, consumed    *)
(* one after the other.  Checked: what the machine has gathered is what    *)
(* the grammar of argument vectors says, stated by looking at the whole    *)
(* vector: which arguments are options, which are their values, which are  *)
(* sources; and the order of options does not matter.                      *)
(***************************************************************************)
EXTENDS Cli, Json
CONSTANTS MaxArgs, ShowCases

Args == {T("-l"), T("-i"), T("-d"), T("-e"), T("-ee.txt"), T("e.txt"), T("-t"), T("-tt.tmpl"), T("t.tmpl"), T("-o"), T("-oo"), T("-p"), T("-pA"),
         T("A"), T("-D"), T("-DA=1"), T("A=2"), T("-Dx"), T("a.txt"), T("b.txt"), T("-"), T("-h"), T("-v"), T("-x"), <<>>, T("-la")}
VARIABLES argv, a
vars == <<argv, a>>
Init == argv = <<>> /\ a = [CliInit EXCEPT !.st = "build"]
Write == /\ a.st = "build" /\ Len(argv) < MaxArgs
         /\ \E x \in Args : argv' = Append(argv, x)
         /\ UNCHANGED a
Start == a.st = "build" /\ a' = [a EXCEPT !.st = "args"] /\ UNCHANGED argv
Step == /\ a.st = "args" /\ a' = ArgStep(a, argv) /\ UNCHANGED argv
        /\ (ShowCases /\ a'.st # "args" => PrintT("CASE " \o ToJson([argv |-> argv, st |-> a'.st])))
Next == Write \/ Start \/ Step
Spec == Init /\ [][Next]_vars
Done == a.st \notin {"build", "args"}

(* the grammar *)
N == Len(argv)
IsOpt(x) == x # <<>> /\ x[1] = 45
Takes(x) == IsOpt(x) /\ Len(x) = 2 /\ x[2] \in KV
RECURSIVE IsValue(_)
IsValue(k) == k > 1 /\ Takes(argv[k - 1]) /\ ~IsValue(k - 1)
Heads == {k \in 1..N : ~IsValue(k)}
Opts(c) == {k \in Heads : IsOpt(argv[k]) /\ Len(argv[k]) >= 2 /\ argv[k][2] = c}
Has(k) == Len(argv[k]) > 2 \/ k < N
Val(k) == IF Len(argv[k]) > 2 THEN SubSeq(argv[k], 3, Len(argv[k])) ELSE argv[k + 1]
Valued(c) == {k \in Opts(c) : Has(k)}
Latest(ks) == CHOOSE k \in ks : \A j \in ks : j <= k
Stops == {k \in Heads : /\ IsOpt(argv[k])
                        /\ \/ Len(argv[k]) = 1
                           \/ argv[k][2] \notin {100, 105, 108} \cup KV
                           \/ argv[k][2] = 68 /\ Has(k) /\ (LET d == Val(k) IN d \notin {T("A=1"), T("A=2")})}
StopsAs(k) == IF Len(argv[k]) > 1 /\ argv[k][2] = 104 THEN "help" ELSE IF Len(argv[k]) > 1 /\ argv[k][2] = 118 THEN "version" ELSE "bad"
Ends == Done => a.st = IF Stops = {} THEN "run" ELSE StopsAs(CHOOSE k \in Stops : \A j \in Stops : k <= j)
SrcsAt == SetToSortSeq({k \in Heads : ~IsOpt(argv[k])}, LAMBDA x, y : x < y)
EntriesAt == SetToSortSeq(Valued(101), LAMBDA x, y : x < y)
Single(c) == IF Valued(c) = {} THEN Unset ELSE Given(Val(Latest(Valued(c))))
Gathers == Done /\ a.st = "run" =>
    /\ a.srcs = [i \in 1..Len(SrcsAt) |-> argv[SrcsAt[i]]]
    /\ a.entries = [i \in 1..Len(EntriesAt) |-> Val(EntriesAt[i])]
    /\ a.tmpl = Single(116) /\ a.out = Single(111) /\ a.print = Single(112)
    /\ a.listing = (Opts(108) # {}) /\ a.list = (Opts(105) # {})
    /\ (Valued(68) = {} => a.defs = <<>>)
    /\ (Valued(68) # {} => a.defs = <<<<T("A"), DefValue(Val(Latest(Valued(68))))>>>>)
Moves == a.st = "args" => a.i <= N + 1
=============================================================================
