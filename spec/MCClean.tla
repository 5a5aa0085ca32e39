------------------------------ MODULE MCClean ------------------------------
(***************************************************************************)
(* Cleaning, one output at a time and in any order: after a file is gone,  *)
(* the directories above it are removed as long as they are empty, up to   *)
(* the output directory.  What is left is what KeptDirs says at once.      *)
(***************************************************************************)
EXTENDS Build
CONSTANTS Size

Out == T("/r/o")
DirList == <<T("/r"), T("/r/o"), T("/r/o/a"), T("/r/o/a/b"), T("/r/z"), T("/r/o/c"), T("/r/oz")>>
AllDirs == {DirList[i] : i \in 1..(IF Size = 2 THEN 5 ELSE 7)}
Parent(p) == SubSeq(p, 1, (CHOOSE i \in 1..Len(p) : p[i] = 47 /\ \A j \in i + 1..Len(p) : p[j] # 47) - 1)
Output(d) == d \o T("/x")
Kept(d) == d \o T("/k")

VARIABLES dirs, files, todo, dirs0, files0
vars == <<dirs, files, todo, dirs0, files0>>
Init == /\ dirs \in {D \in SUBSET AllDirs : T("/r") \in D /\ \A d \in D \ {T("/r")} : Parent(d) \in D}
        /\ todo \in SUBSET {Output(d) : d \in {d \in dirs : Below(d, Out) \/ d = Out}}
        /\ \E k \in SUBSET {Kept(d) : d \in dirs} : files = todo \cup k
        /\ dirs0 = dirs /\ files0 = files
Full(d, D, F) == \E p \in D \cup F : Parent(p) = d
RECURSIVE Up(_, _, _)
Up(d, D, F) == IF Full(d, D, F) THEN D ELSE IF d = Out THEN D \ {d} ELSE Up(Parent(d), D \ {d}, F)
Next == \E f \in todo :
            /\ todo' = todo \ {f}
            /\ files' = files \ {f}
            /\ dirs' = Up(Parent(f), dirs, files')
            /\ UNCHANGED <<dirs0, files0>>
Spec == Init /\ [][Next]_vars
Gone == files0 \ files
Same == dirs = KeptDirs(dirs0, Out, files0, Gone)
(* nothing outside the output directory, and nothing that is still used *)
Outside == \A d \in dirs0 : d = Out \/ Below(d, Out) \/ d \in dirs
Used == \A f \in files : Parent(f) \in dirs
(* directories that no output was in are kept *)
Others == \A d \in dirs0 \ dirs : \E f \in Gone : Below(f, d)
=============================================================================
