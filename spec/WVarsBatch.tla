----------------------------- MODULE WVarsBatch -----------------------------
(* Runs the programs of an ndjson file through WVars.                        *)
EXTENDS WVars, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, pc, s
vars == <<i, pc, s>>
Init == i \in 1..Len(Cases) /\ pc = 1 /\ s = Fresh
Next == pc <= Len(Cases[i].prog) /\ s' = Exec(s, Cases[i].prog[pc], Cases[i].bits) /\ pc' = pc + 1 /\ i' = i
\* a variable has the last value given to it, cut to 64 bits
Last64 == \A v \in DOMAIN s.sym : s.sym[v] = Keep(s.sym[v])
Report == pc > Len(Cases[i].prog) => PrintT(<<"@V", i, ToJson([img |-> s.img, open |-> s.open])>>)
Inv == Report /\ Last64
=============================================================================
