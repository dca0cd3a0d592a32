---------------------------- MODULE PreprocBatch ----------------------------
(* Runs Preproc on the programs of an ndjson file; prints the outcome of   *)
(* each. One behaviour per program, one state per line processed.          *)
EXTENDS Preproc, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, m
Init == /\ i \in 1..Len(Cases)
        /\ m = InitM(Cases[i].lines)
Next == /\ ~m.done /\ m.steps < Fuel
        /\ m' = Step(m)
        /\ i' = i
Outcome == IF m.done THEN [out |-> m.out, err |-> m.err, wrn |-> m.wrn, steps |-> m.steps, fuel |-> FALSE]
           ELSE [out |-> m.out, err |-> m.err, wrn |-> m.wrn, steps |-> m.steps, fuel |-> TRUE]
Report == (m.done \/ m.steps >= Fuel) => PrintT(<<"@OUT", i, ToJson(Outcome)>>)
\* frames never outlive the blocks they were opened in, and only the top
\* block of the stack can be the one assembled
StackOK == /\ Len(m.fr) >= 1 /\ m.fr[1].k = "file"
           /\ \A k \in DOMAIN m.cs : k < Len(m.cs) => m.cs[k].st = "on" \/ m.cs[k+1].st = "dead"
           /\ \A k \in 1..(Len(m.fr) - 1) : m.fr[k].cd <= m.fr[k + 1].cd
=============================================================================
