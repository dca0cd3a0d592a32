------------------------------ MODULE HllBatch ------------------------------
(* Given programs with their machine code (environment CASES): the structured *)
(* program and the machine run side by side, from one user statement to the   *)
(* next. Every user statement is `int id`. A case has                         *)
(*   mode, code (bytes from address 0 on, and 16 more), len, ip (where it     *)
(*   starts), vars <<address, size>>, prog, env (what each user statement     *)
(*   executed does)                                                           *)
EXTENDS Hll, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, j, s, m, out
vars == <<i, j, s, m, out>>
C == Cases[i]
Mach(c) == Act([Start(c.mode, c.ip) EXCEPT !.f.u = TRUE], c.start)
\* (the model's memory holds the variables only)
Mem0(c) == LET v == c.vars IN FoldLeft(LAMBDA t, q : [a \in q[1]..(q[1] + q[2] - 1) |-> c.code[a + 1]] @@ t, <<>>, v)
Mod(c) == H0([[r |-> Mach(c).r, x |-> <<>>, f |-> Mach(c).f, w |-> Mach(c).w @@ Mem0(c), top |-> Top0(c.mode)] EXCEPT !.f.u = TRUE]
             @@ [cxn |-> CASE c.mode = 16 -> "cx" [] c.mode = 32 -> "ecx" [] OTHER -> "rcx"], c.prog)
Init == /\ i \in 1..Len(Cases)
        /\ j = 0
        /\ s = Mod(Cases[i])
        /\ m = Mach(Cases[i])
        /\ out = ""
LowBytes(mode) == IF mode = 64 THEN 8 ELSE 4
\* first difference at a user statement
Differ(a, b) ==
    LET n == LowBytes(C.mode)
        R == {q \in 1..(IF C.mode = 64 THEN 16 ELSE 8) : SubSeq(a.m.r[q], 1, n) # SubSeq(b.r[q], 1, n) /\ ~(q = 1 /\ a.unk)}
        M == {q \in 1..Len(C.vars) : \E x \in C.vars[q][1]..(C.vars[q][1] + C.vars[q][2] - 1) : a.m.w[x] # Get1(b, C.code, x)}
        WX == {x \in DOMAIN b.w : x < Len(C.code) /\ b.w[x] # C.code[x + 1] /\ ~\E q \in 1..Len(C.vars) : x >= C.vars[q][1] /\ x < C.vars[q][1] + C.vars[q][2]}
    IN CASE b.st = "run" -> "no user statement reached"
         [] b.st # "int" -> "stopped: " \o b.st \o " " \o ToString(b.v)
         [] b.v # a.at -> "statement " \o ToString(b.v) \o " instead of " \o ToString(a.at)
         [] R # {} -> "registers " \o ToString({R64[q] : q \in R}) \o " differ at statement " \o ToString(a.at)
         [] M # {} -> "variables " \o ToString({C.vars[q][1] : q \in M}) \o " differ at statement " \o ToString(a.at)
         [] WX # {} -> "other memory written: " \o ToString(WX)
         [] OTHER -> ""
Next == /\ out = ""
        /\ i' = i
        /\ j' = j + 1
        /\ LET a == ToMark(s)
               b == RunM([m EXCEPT !.st = "run"], C.code, C.len, C.mode, 300)
               d == IF a.sig = "mark" THEN Differ(a, b) ELSE ""
           IN IF a.sig # "mark" THEN out' = a.sig /\ s' = s /\ m' = m
              ELSE IF d # "" THEN out' = "!" \o d /\ s' = s /\ m' = m
              ELSE IF a.at = 127 \/ j' > Len(C.env) THEN out' = "ok" /\ s' = s /\ m' = m
              ELSE out' = "" /\ s' = TLCEval(Resume(a, C.env[j'])) /\ m' = TLCEval(Act(b, C.env[j']))
Inv == out # "" => PrintT(<<"@V", i, ToJson([o |-> out, n |-> j])>>)
=============================================================================
