----------------------------- MODULE CallsBatch -----------------------------
(* Given modules with their machine code (environment CASES): the calls as    *)
(* Calls describes them and the machine side by side, from one stop to the    *)
(* next. A case: mode, code, len, ip, vars, procs <<[params, locals, uses,    *)
(* cv, body]>> (the first one is entered at ip), env, start                   *)
EXTENDS Calls, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, j, k, m, out
vars == <<i, j, k, m, out>>
C == Cases[i]
ActR(mm, e) == FoldLeft(LAMBDA t, q : SetR(t, q[1], q[2]), mm, e)
Init == /\ i \in 1..Len(Cases)
        /\ j = 0
        /\ m = ActR([Start(Cases[i].mode, Cases[i].ip) EXCEPT !.f.u = TRUE, !.r[5] = Num(Top0(Cases[i].mode) - 64 - Cases[i].low)], Cases[i].start)
        /\ k = <<Frame(1, <<>>, Cases[i].procs[1].locals, m)>>
        /\ out = ""
Cv(n) == C.procs[n].cv
\* memory below the stack pointer doesn't last
Interrupted(b) == LET s == SP(b, C.mode) - C.red IN [b EXCEPT !.w = [x \in {x \in DOMAIN @ : x >= s \/ x < Len(C.code)} |-> @[x]]]
Set(kk, q, f) == [kk EXCEPT ![q] = f]
RECURSIVE Puts(_)
\* statements without a stop
Puts(kk) == LET f == kk[Len(kk)]  B1 == C.procs[f.pr].body IN
    IF f.pc > Len(B1) \/ B1[f.pc].op # "put" THEN kk
    ELSE LET S == B1[f.pc]
             f1 == IF S.w = "p" THEN [f EXCEPT !.par[S.j] = S.v] ELSE [f EXCEPT !.loc[S.j][S.e] = S.v]
         IN Puts([kk EXCEPT ![Len(kk)] = [f1 EXCEPT !.pc = @ + 1]])
\* one stop: the frames kk, the machine b stopped by `int v`; gives <<frames, error, stop expected>>
Stop(kk0, b) ==
    LET kk == Puts(kk0)
        n == Len(kk)  f == kk[n]  pr == C.procs[f.pr]  done == f.pc > Len(pr.body)
        nx == [kk EXCEPT ![n].pc = @ + 1]
    IN IF done /\ n = 1 THEN <<kk, "", 255>>
       ELSE IF done THEN  \* back in the caller
            LET c == kk[n - 1]  S == C.procs[c.pr].body[c.pc] IN
            <<[SubSeq(kk, 1, n - 1) EXCEPT ![n - 1].pc = @ + 1], BackErr(f, pr, pr.cv, b, C.mode, C.code, C.vars), S.back>>
       ELSE LET S == pr.body[f.pc] IN
            CASE S.op = "mark" -> <<nx, "", S.id>>
              [] S.op = "get" -> LET v == IF S.w = "p" THEN f.par[S.j] ELSE f.loc[S.j][S.e]
                                     x == SubSeq(v, S.at + 1, S.at + S.sz)
                                 IN <<nx, IF v = <<>> \/ Acc(b, S.sz) = x THEN "" ELSE (IF S.w = "p" THEN "parameter " ELSE "local ") \o S.n \o " is " \o ToString(Acc(b, S.sz)) \o ", should be " \o ToString(x), S.id>>
              [] S.op = "adr" -> LET a == IntOf(SubSeq(Acc(b, Wide(C.mode)), 1, IF C.mode = 16 THEN 2 ELSE Wide(C.mode)))
                                     len == pr.locals[S.j].sz * pr.locals[S.j].cnt
                                 IN <<[nx EXCEPT ![n].la[S.j] = a],
                                      IF a < SP(b, C.mode) - C.red THEN "local " \o S.n \o " lies below the stack pointer"
                                      ELSE IF a + len > SP(f.snap, C.mode) THEN "local " \o S.n \o " lies in the caller's stack"
                                      ELSE IF \E R \in Ranges(kk, C.procs) : ~(R[1] = n /\ R[2] = S.j) /\ ~Apart(a, len, R[3], R[4]) THEN "local " \o S.n \o " overlaps another one" ELSE "", S.id>>
              [] OTHER -> LET q == C.procs[S.n] IN   \* call
                          <<Append(kk, Frame(S.n, [x \in 1..Len(q.params) |-> ArgVal(b, C.code, f, S.args[x], q.params[x])], q.locals, b)), "", S.id>>
Next == /\ out = ""
        /\ i' = i
        /\ j' = j + 1
        /\ LET b == TLCEval(RunM([m EXCEPT !.st = "run"], C.code, C.len, C.mode, 200))
               s == Stop(k, b)
               st == b.st = "int" /\ b.v = s[3]
           IN IF b.st = "int" /\ ~st THEN out' = "!stop " \o ToString(b.v) \o " instead of " \o ToString(s[3]) /\ k' = k /\ m' = m
              ELSE IF ~st THEN out' = "!" \o (IF b.st = "run" THEN "no stop reached" ELSE b.st \o " " \o ToString(b.v)) \o " before stop " \o ToString(s[3]) /\ k' = k /\ m' = m
              ELSE IF s[2] # "" THEN out' = "!" \o s[2] /\ k' = k /\ m' = m
              ELSE IF s[3] = 255 THEN out' = "ok" /\ k' = k /\ m' = m
              ELSE LET e == C.env[s[3]]  t == TLCEval(ActR(Interrupted(b), e))
                       \* a call's arguments are evaluated after the registers have been set
                       k2 == IF Len(s[1]) > Len(k) THEN Stop(k, t)[1] ELSE s[1]
                   IN out' = "" /\ m' = t /\ k' = TLCEval(k2)
Inv == out # "" => PrintT(<<"@V", i, ToJson([o |-> out, n |-> j])>>)
=============================================================================
