------------------------------ MODULE Findings ------------------------------
(* The named deviations of the code that /verif/known-findings.txt lists.   *)
EXTENDS Text, IOUtils
KnownKeys == IF "VP_KNOWN" \in DOMAIN IOEnv THEN Elems(Words(T(IOEnv.VP_KNOWN))) ELSE {}
Known(k) == T(k) \in KnownKeys
=============================================================================
