------------------------------- MODULE Mirror -------------------------------
(***************************************************************************)
(* Where a repository is mirrored after a push: the remote of the          *)
(* repository called mirror, or what the configuration says.  A setting is *)
(* [ok, v].                                                                *)
(***************************************************************************)
EXTENDS Text
Nowhere == [ok |-> FALSE, v |-> <<>>]
(* sections: [mine, mirror], in their order; the first that is this repository's counts *)
Mirror(pushurl, url, sections) ==
    LET mine == SelectSeq(sections, LAMBDA s : s.mine)
    IN IF pushurl.ok \/ url.ok THEN [ok |-> TRUE, v |-> T("mirror")]
       ELSE IF mine # <<>> THEN mine[1].mirror ELSE Nowhere
=============================================================================
