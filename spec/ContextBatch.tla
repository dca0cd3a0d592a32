---------------------------- MODULE ContextBatch ---------------------------
(* Given sources (environment CASES), statement by statement.                 *)
EXTENDS Context, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, pc, s
vars == <<i, pc, s>>
Init == i \in 1..Len(Cases) /\ pc = 1 /\ s = Start(Cases[i].h)
More == pc <= Len(Cases[i].prog)
Next == More /\ s' = TLCEval(Step(s, Cases[i].prog[pc], pc)) /\ pc' = pc + 1 /\ i' = i
Inv == ~More => PrintT(<<"@V", i, ToJson(Verdict(s))>>)
=============================================================================
