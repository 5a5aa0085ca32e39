------------------------------- MODULE MCHttp -------------------------------
(***************************************************************************)
(* Every tree of up to MaxNodes nodes of a pool around the document root   *)
(* /w, and every address of up to MaxSegs segments of a pool, built piece  *)
(* by piece.  Checked: what is served is an open file inside the document  *)
(* root, nothing outside of it has any influence on the answers, redirects *)
(* lead to the same place, and encoding and queries do not matter.         *)
(***************************************************************************)
EXTENDS Http, Json
CONSTANTS MaxNodes, MaxSegs, ShowCases, Every

F(d) == [k |-> "file", d |-> T(d), open |-> TRUE]
D == [k |-> "dir", d |-> <<>>, open |-> TRUE]
L(t) == [k |-> "link", d |-> T(t), open |-> TRUE]
Shut(x) == [x EXCEPT !.open = FALSE]
P(s) == Split(T(s), Slash)
Root == P("w")
Base == <<<<P("w"), D>>, <<P("w-p"), D>>, <<P("w-p/s"), F("secret one")>>, <<P("s"), F("secret two")>>>>
Index == T("index.html")
Pool == { <<P("w/a"), F("file a")>>, <<P("w/a"), D>>, <<P("w/a"), Shut(F("file a"))>>, <<P("w/a"), Shut(D)>>,
          <<P("w/a"), L("../s")>>, <<P("w/a"), L("/w-p")>>, <<P("w/a"), L("b")>>, <<P("w/a"), L(".")>>, <<P("w/a"), L("a")>>, <<P("w/a"), L("..")>>, <<P("w/a"), L("/w/index.txt")>>,
          <<P("w/b"), D>>, <<P("w/b"), L("a")>>, <<P("w/b"), F("file b")>>,
          <<P("w/a/index.html"), F("index a")>>, <<P("w/a/index.html"), L("../../s")>>, <<P("w/a/index.html"), L("../index.txt")>>, <<P("w/a/index.html"), D>>,
          <<P("w/a/index.html"), L("x")>>, <<P("w/a/index.txt"), F("second index")>>, <<P("w/b/index.html"), F("index b")>>,
          <<P("w/index.txt"), F("index w")>>, <<P("w/index.html"), F("index first")>>, <<P("w-p/index.html"), F("secret three")>>, <<P("index.html"), F("secret four")>> }
Segs == {T("a"), T("b"), T(".."), T("."), <<>>, T("index.html"), T("index.txt"), T("w"), T("w-p"), T("s")}

VARIABLES tree, address, st
vars == <<tree, address, st>>
Paths(t) == {t[i][1] : i \in 1..Len(t)}
Init == tree = Base /\ address = <<>> /\ st = "tree"
(* (in the order of the paths, to have every tree only once) *)
After(p) == \A i \in (Len(Base) + 1)..Len(tree) : Cmp(Join(tree[i][1], <<Slash>>), Join(p, <<Slash>>)) < 0
Grow == /\ st = "tree" /\ Len(tree) < Len(Base) + MaxNodes
        /\ \E x \in Pool : /\ x[1] \notin Paths(tree) /\ After(x[1])
                           /\ Has(tree, Front(x[1])) /\ Node(tree, Front(x[1])).k = "dir"
                           /\ tree' = Append(tree, x)
        /\ UNCHANGED <<address, st>>
Ready == st = "tree" /\ st' = "ask" /\ UNCHANGED <<tree, address>>
Slashes(a) == Cardinality({i \in 1..Len(a) : a[i] = Slash})
Ask == /\ st = "ask" /\ Slashes(address) < MaxSegs
       /\ \E s \in Segs : address' = address \o <<Slash>> \o s
       /\ UNCHANGED <<tree, st>>
       /\ (ShowCases /\ (Len(tree) + 7 * Len(address') + address'[Len(address')]) % Every = 0
             => PrintT("CASE " \o ToJson([tree |-> tree, address |-> address'])))
Next == Grow \/ Ready \/ Ask
Spec == Init /\ [][Next]_vars

Asked == st = "ask" /\ address # <<>>
A(a) == Get(tree, Root, a)
R(t) == Resolve(t, Root).at
(* what is served is a file in the root *)
Contained == Asked => LET x == A(address) IN
    /\ x.status \in {200, 302, 403, 404, 500}
    /\ x.status = 200 => /\ Inside(R(tree), x.from) /\ Len(x.from) > 1
                         /\ Has(tree, x.from) /\ Node(tree, x.from) = [k |-> "file", d |-> x.body, open |-> TRUE]
    /\ x.status # 200 => x.body = <<>>
    /\ (x.status = 302) = (x.location # <<>>)
(* the contents of files outside do not matter *)
Other(i) == IF Inside(Root, tree[i][1]) \/ tree[i][2].k # "file" THEN tree[i] ELSE <<tree[i][1], [tree[i][2] EXCEPT !.d = T("?")]>>
NoInfluence == Asked => A(address) = Get([i \in 1..Len(tree) |-> Other(i)], Root, address)
(* a redirect is answered with what the directory has *)
Redirects == Asked => LET x == A(address) IN x.status = 302 =>
    LET y == A(x.location) IN y.status \in {200, 500} /\ ~StartsWith(x.location, <<Slash, Slash>>) /\ x.location[Len(x.location)] = Slash
(* without changes to the tree, a slash at the end does not matter for directories *)
Same(x, y) == x.status = y.status /\ x.body = y.body /\ x.type = y.type
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexU(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Escaped(a, i, up) == SubSeq(a, 1, i - 1) \o (IF up THEN <<37, HexU(a[i] \div 16), HexU(a[i] % 16)>> ELSE <<37, Hex(a[i] \div 16), Hex(a[i] % 16)>>) \o SubSeq(a, i + 1, Len(a))
(* how an address is written does not matter *)
Writing == Asked => LET x == A(address) IN
    /\ \A i \in {1, Len(address)} : \A up \in {TRUE, FALSE} : Same(A(Escaped(address, i, up)), x)
    /\ A(address \o T("?/../b?x=%00")) = x
    /\ Same(A(<<Slash>> \o address), x)
    /\ Same(A(T("/./b/..") \o address), x) \/ Resolve(tree, Root \o P("b/..")).at # R(tree)
=============================================================================
