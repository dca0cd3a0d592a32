------------------------------ MODULE X86Rows ------------------------------
(* Hands the instruction table to the generator of instructions.              *)
EXTENDS X86, Json
VARIABLE i
Init == i = 0
Next == i < NRow /\ i' = i + 1
Inv == i > 0 => PrintT(<<"@R", i, ToJson(Rows[i])>>)
=============================================================================
