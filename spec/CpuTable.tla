------------------------------ MODULE CpuTable -----------------------------
(* Hands the instructions of CpuIns to the generator of sources.              *)
EXTENDS CpuIns, Json
VARIABLE i
Init == i = 0
Next == i < Len(Ins) /\ i' = i + 1
Inv == i > 0 => PrintT(<<"@R", i, ToJson([t |-> Ins[i].txt, lvl |-> Ins[i].lvl, modes |-> Ins[i].modes])>>)
=============================================================================
