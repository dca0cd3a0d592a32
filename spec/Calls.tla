------------------------------- MODULE Calls -------------------------------
(* Procedure calls as the programmer sees them: frames with parameters and    *)
(* locals under their names, and calls that give parameters their values. The *)
(* machine's registers appear only at stops (`int n` statements):             *)
(*   k    frames, the innermost last: pr the procedure, pc the next statement,*)
(*        par, loc values of parameters and locals (<<>>: none given yet),    *)
(*        la the locals' addresses (-1: not seen yet), snap the machine when  *)
(*        the procedure was invoked                                           *)
(*   err  "" or what went wrong                                               *)
(* A statement is one of                                                      *)
(*   mark            what follows finds other register values (Act)           *)
(*   get p|l j       the accumulator holds parameter / local j (element e)    *)
(*   adr j           the accumulator holds the address of local j             *)
(*   put p|l j v     parameter / local gets a value (no stop)                 *)
(*   call n args     procedure n is invoked (a stop in front of it evaluates  *)
(*                   the arguments); the stop behind it is "back"             *)
(* Conventions (cv) give pres: registers a call preserves, ck: the callee's   *)
(* USES is seen by the caller for these too, red: bytes below the stack       *)
(* pointer that belong to the procedure, up: bytes above it that calls may use*)
EXTENDS Machine
AccN(n, q) == CASE n = 1 -> "al" [] n = 2 -> "ax" [] n = 4 -> "eax" [] OTHER -> "rax"
Acc(m, n) == GetR(m, AccN(n, 0))
Frame(n, par, locals, snap) == [pr |-> n, pc |-> 1, par |-> par, loc |-> [q \in 1..Len(locals) |-> [e \in 1..locals[q].cnt |-> <<>>]], la |-> [q \in 1..Len(locals) |-> -1], snap |-> snap, id |-> 0]
(* ---- arguments: their value at the stop in front of the call *)
Typed(v, sg, n) == IF Len(v) >= n THEN SubSeq(v, 1, n) ELSE IF sg THEN SExt(v, n) ELSE ZExt(v, n)
\* f: the calling frame; p: the parameter; <<>>: not known
ArgVal(m, code, f, a, p) ==
    CASE a.k = "i" -> SubSeq(a.v, 1, p.sz)
      [] a.k = "r" -> LET v == GetR(m, a.n) IN IF Len(v) < p.sz THEN ZExt(v, p.sz) ELSE SubSeq(v, 1, p.sz)
      [] a.k = "rr" -> GetR(m, a.lo) \o GetR(m, a.n)
      [] a.k = "m" -> Typed(Load(m, code, a.a, a.sz), a.sg = 1, p.sz)
      [] a.k = "ad" -> SubSeq(Num(a.a) \o Zeros(4), 1, p.sz)
      [] a.k = "par" -> IF f.par[a.j] = <<>> THEN <<>> ELSE Typed(f.par[a.j], a.sg = 1, p.sz)
      [] a.k = "loc" -> IF f.loc[a.j][a.e] = <<>> THEN <<>> ELSE Typed(f.loc[a.j][a.e], a.sg = 1, p.sz)
      [] OTHER -> IF f.la[a.j] < 0 THEN <<>> ELSE SubSeq(Num(f.la[a.j]) \o Zeros(4), 1, p.sz)
(* ---- the stack of frames *)
Ranges(k, procs) == UNION {{<<q, j, k[q].la[j], procs[k[q].pr].locals[j].sz * procs[k[q].pr].locals[j].cnt>> : j \in {j \in 1..Len(k[q].la) : k[q].la[j] >= 0}} : q \in 1..Len(k)}
Apart(a, n, b, l) == a + n <= b \/ b + l <= a
RegName(n, mode) == IF mode = 64 THEN R64[n] ELSE IF mode = 32 THEN R32[n] ELSE R16[n]
\* what the callee has to leave as it was
Kept(cv, uses, mode) == {n \in 1..(IF mode = 64 THEN 16 ELSE 8) : n # 5 /\ (n \in {cv.pres[q] : q \in 1..Len(cv.pres)} \/ (n \in {cv.ck[q] : q \in 1..Len(cv.ck)} /\ n \in {uses[q] : q \in 1..Len(uses)}))}
Wide(mode) == mode \div 8
BackErr(f, pr, cv, m, mode, code, vars) ==
    LET old == f.snap
        bad == {n \in Kept(cv, pr.uses, mode) : SubSeq(m.r[n], 1, Wide(mode)) # SubSeq(old.r[n], 1, Wide(mode))}
        \* memory: variables, and the stack above the pointer
        mem == {x \in DOMAIN m.w : (x >= SP(old, mode) + cv.up \/ x < Len(code)) /\ m.w[x] # Get1(old, code, x)}
    IN IF SP(m, mode) # SP(old, mode) THEN "stack pointer " \o ToString(SP(m, mode)) \o " after the call, was " \o ToString(SP(old, mode))
       ELSE IF bad # {} THEN "registers " \o ToString({RegName(n, mode) : n \in bad}) \o " not preserved"
       ELSE IF mem # {} THEN "memory at " \o ToString(mem) \o " changed" ELSE ""
=============================================================================
