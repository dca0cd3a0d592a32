------------------------------ MODULE SegBatch ------------------------------
(* Runs Segments on the programs of an ndjson file, one state per statement. *)
EXTENDS Segments, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, pc, st
vars == <<i, pc, st>>
D == Cases[i].d
P == Cases[i].p
How == Cases[i].how
Init == i \in 1..Len(Cases) /\ pc = 1 /\ st = InitSt(D)
Next == /\ pc <= Len(P) /\ i' = i /\ pc' = pc + 1
        /\ st' = Exec(st, D, P[pc], P[pc].ln)
        /\ Assert(Untouched(st, st'), "a statement moved the counter of another segment")
Done == pc > Len(P)
Fin == AtEnd(st, 0)
Report == Done => PrintT(<<"@OUT", i, ToJson([err |-> Fin.err, img |-> IF Fin.err = <<>> THEN Image(st, D, How) ELSE <<>>])>>)
Meaning == Done /\ Fin.err = <<>> => InBounds(st) /\ Apart(st, D, How) /\ Faithful(st, D, How) /\ GroupPlaces(st, D, How)
=============================================================================
