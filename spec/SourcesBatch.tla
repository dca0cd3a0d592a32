---------------------------- MODULE SourcesBatch ----------------------------
(* Given sources (environment CASES): what they emit and which messages they give. *)
EXTENDS Sources, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, m
vars == <<i, m>>
Init == \E k \in 1..Len(Cases) : i = k /\ m = Start(Cases[k])
Next == ~Finished(m.st) /\ m' = Run(Cases[i], m) /\ i' = i
Inv == /\ LineOk(Cases[i], m)
       /\ BottomOk(m)
       /\ (Finished(m.st) => PrintT(<<"@V", i, ToJson([out |-> m.out, diag |-> m.diag])>>))
=============================================================================
