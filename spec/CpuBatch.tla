------------------------------ MODULE CpuBatch -----------------------------
(* A source (environment CASES): mode and statements, each a directive, a use *)
(* of @Cpu or an instruction (by number). Interpreted one by one: out has the *)
(* value of each @Cpu and, for an instruction, -1 rejected, 1 accepted,       *)
(* 2 accepted with a wait in front.                                           *)
EXTENDS CpuIns, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
DirOf(t) == CHOOSE d \in {Dirs[k] : k \in 1..Len(Dirs)} : d.t = t
VARIABLES i, pc, c, out
vars == <<i, pc, c, out>>
Init == i \in 1..Len(Cases) /\ pc = 0 /\ c = Start /\ out = <<>>
Step(S) == CASE S.op = "dir" -> c' = Set(c, DirOf(S.t)) /\ out' = Append(out, 0)
             [] S.op = "atcpu" -> c' = c /\ out' = Append(out, AtCpu(c))
             [] S.op = "row" -> LET q == RowReq(S.o, {S.ks[k] : k \in 1..Len(S.ks)}) IN
                c' = c /\ out' = Append(out, IF Has(c, q) THEN 1 ELSE -1)
             [] OTHER -> LET q == Ins[S.n] IN
                c' = c /\ out' = Append(out, IF ~Allowed(c, q, Cases[i].mode) THEN -1 ELSE IF Waits(c, q) THEN 2 ELSE 1)
Next == pc < Len(Cases[i].prog) /\ pc' = pc + 1 /\ Step(Cases[i].prog[pc + 1]) /\ i' = i
Inv == pc = Len(Cases[i].prog) => PrintT(<<"@V", i, ToJson(out)>>)
=============================================================================
