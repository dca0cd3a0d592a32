-------------------------------- MODULE Hll --------------------------------
(* Structured programs: what .IF, .WHILE, .REPEAT, .FOR, .SWITCH, .BREAK and  *)
(* .CONTINUE mean. A program is a list of statements; the state is that of    *)
(* the processor (registers and memory of Machine) and a stack of the blocks  *)
(* entered:                                                                   *)
(*   m   registers, memory; m.f.u: the flags have no defined value            *)
(*   k   blocks, the innermost last: statements b, the next one pc, and nd    *)
(*       the block statement it belongs to (kind up)                          *)
(*   unk the accumulator has no defined value (.SWITCH uses it)               *)
(*   sig "run", "mark" (at user statement at), "open" (the meaning depends on *)
(*       something undefined), "long", "end"                                  *)
(* A user statement stands for any code: what it does to registers, memory    *)
(* and flags is given from outside (Act).                                     *)
EXTENDS Machine
H0(m, prog) == [m |-> m, k |-> <<[up |-> "top", b |-> prog, pc |-> 1, nd |-> <<>>, n |-> 0]>>, unk |-> FALSE, sig |-> "run", at |-> 0, n |-> 0]

(* ---- conditions. Value 0, 1, or 2: undefined *)
OpVal(m, a) == IF a.k = "r" THEN GetR(m, a.n) ELSE IF a.k = "m" THEN Load(m, <<>>, a.a, a.sz) ELSE a.v
OpUnk(s, a) == s.unk /\ a.k = "r" /\ RegMap[a.n][1] = 1
RECURSIVE LtU(_, _, _)
LtU(x, y, k) == IF k = 0 THEN FALSE ELSE IF x[k] # y[k] THEN x[k] < y[k] ELSE LtU(x, y, k - 1)
LtS(x, y) == IF Neg(x) # Neg(y) THEN Neg(x) ELSE LtU(x, y, Len(x))
BV(x) == IF x THEN 1 ELSE 0
Flag(f, n) == CASE n = "ZERO" -> f.z [] n = "CARRY" -> f.c [] n = "SIGN" -> f.s [] n = "PARITY" -> f.p [] n = "OVERFLOW" -> f.o
                [] n = "LESS" -> f.s # f.o [] n = "GREATER" -> ~f.z /\ f.s = f.o [] n = "ABOVE" -> ~f.c /\ ~f.z [] n = "EQUAL" -> f.z [] OTHER -> f.c
\* <<value, whether the flags have been changed>>
RECURSIVE Cnd(_, _, _)
Cnd(s, c, u) ==
    CASE c.k = "fl" -> <<IF u THEN 2 ELSE BV(Flag(s.m.f, c.n)), u>>
      [] c.k = "const" -> <<BV(c.v # 0), u>>
      [] c.k = "val" -> <<IF OpUnk(s, c.a) THEN 2 ELSE LET v == OpVal(s.m, c.a) IN BV(\E j \in 1..Len(v) : v[j] # 0), TRUE>>
      [] c.k = "bit" -> <<IF OpUnk(s, c.a) \/ OpUnk(s, c.b) THEN 2 ELSE LET v == OpVal(s.m, c.a)  w == SExt(OpVal(s.m, c.b), Len(v)) IN BV(\E j \in 1..Len(v) : AndB(v[j], w[j]) # 0), TRUE>>
      [] c.k = "cmp" -> <<IF OpUnk(s, c.a) \/ OpUnk(s, c.b) THEN 2 ELSE
                LET v == OpVal(s.m, c.a)  w == SExt(OpVal(s.m, c.b), Len(v))
                    lt == IF c.sg THEN LtS(v, w) ELSE LtU(v, w, Len(v))
                    gt == IF c.sg THEN LtS(w, v) ELSE LtU(w, v, Len(v))
                IN CASE c.op = "==" -> BV(v = w) [] c.op = "!=" -> BV(v # w) [] c.op = "<" -> BV(lt) [] c.op = ">" -> BV(gt) [] c.op = "<=" -> BV(~gt) [] OTHER -> BV(~lt), TRUE>>
      [] c.k = "not" -> LET t == Cnd(s, c.x, u) IN <<IF t[1] = 2 THEN 2 ELSE 1 - t[1], t[2]>>
      [] c.k = "and" -> LET t == Cnd(s, c.x, u) IN IF t[1] = 1 THEN Cnd(s, c.y, t[2]) ELSE t
      [] OTHER -> LET t == Cnd(s, c.x, u) IN IF t[1] = 0 THEN Cnd(s, c.y, t[2]) ELSE t

(* ---- .FOR: assignments *)
Asg(s, q) ==
    LET a == OpVal(s.m, q.a)  b == SExt(OpVal(s.m, q.b), Len(a))  one == Bytes(1, Len(a))
        v == CASE q.op = "=" -> b [] q.op = "++" -> Front(AddCB(a, one, 1, 0)) [] q.op = "--" -> Front(SubCB(a, one, 1, 0))
               [] q.op = "+=" -> Front(AddCB(a, b, 1, 0)) [] q.op = "-=" -> Front(SubCB(a, b, 1, 0))
               [] q.op = "&=" -> Bitw("and", a, b)[1] [] q.op = "|=" -> Bitw("or", a, b)[1] [] q.op = "^=" -> Bitw("xor", a, b)[1]
               [] q.op = "<<=" -> Shl1(a, b[1]) [] OTHER -> Shr1(a, b[1], 0)
        m1 == IF q.a.k = "r" THEN SetR(s.m, q.a.n, v) ELSE Store(s.m, q.a.a, v)
    IN IF (q.op # "=" /\ OpUnk(s, q.a)) \/ OpUnk(s, q.b) THEN [s EXCEPT !.sig = "open"]
       ELSE [s EXCEPT !.m = [m1 EXCEPT !.f.u = TRUE], !.unk = @ /\ ~(q.a.k = "r" /\ Len(a) > 2 /\ RegMap[q.a.n][1] = 1)]
RECURSIVE Asgs(_, _)
Asgs(s, qs) == FoldLeft(LAMBDA t, q : IF t.sig # "run" THEN t ELSE Asg(t, q), s, qs)

(* ---- blocks *)
Top(s) == s.k[Len(s.k)]
Pop(s) == [s EXCEPT !.k = Front(@)]
Enter(s, up, b, nd, n) == [s EXCEPT !.k = Append(@, [up |-> up, b |-> b, pc |-> 1, nd |-> nd, n |-> n])]
Again(s) == [s EXCEPT !.k[Len(s.k)].pc = 1]
\* evaluates c and goes on with Y or N
With(s, c, Y(_), N(_)) == LET t == Cnd(s, c, s.m.f.u)  s1 == [s EXCEPT !.m.f.u = t[2]] IN
    IF t[1] = 2 THEN [s EXCEPT !.sig = "open"] ELSE IF t[1] = 1 THEN Y(s1) ELSE N(s1)
Given(c) == c.k # "none"
Loops == {"while", "repeat", "cxz", "for"}
\* the number of the frame that .BREAK leaves or .CONTINUE goes on with; 0: none
Inner(s, kinds) == LET K == {j \in 1..Len(s.k) : s.k[j].up \in kinds} IN IF K = {} THEN 0 ELSE CHOOSE j \in K : \A l \in K : l <= j
CxW(m) == IF m.cx = 2 THEN "cx" ELSE IF m.cx = 4 THEN "ecx" ELSE "rcx"
AtEnd(s) ==
    LET fr == Top(s) IN
    CASE fr.up = "top" -> [s EXCEPT !.sig = "end"]
      [] fr.up = "arm" -> Pop(s)
      [] fr.up = "while" -> With(s, fr.nd.c, Again, Pop)
      [] fr.up = "repeat" -> IF Given(fr.nd.c) THEN With(s, fr.nd.c, Pop, Again) ELSE Again(s)
      [] fr.up = "cxz" -> LET t == IF Given(fr.nd.c) THEN Cnd(s, fr.nd.c, s.m.f.u) ELSE <<0, s.m.f.u>>
                              q == Front(SubCB(GetR(s.m, s.m.cxn), Bytes(1, SizeR(s.m.cxn)), 1, 0))
                              s1 == [s EXCEPT !.m = SetR([s.m EXCEPT !.f.u = t[2]], s.m.cxn, q)]
                          IN IF t[1] = 2 THEN [s EXCEPT !.sig = "open"] ELSE IF t[1] = 1 \/ \A j \in 1..Len(q) : q[j] = 0 THEN Pop(s1) ELSE Again(s1)
      [] fr.up = "for" -> LET s1 == Asgs(s, fr.nd.inc) IN IF s1.sig # "run" THEN s1 ELSE IF Given(fr.nd.c) THEN With(s1, fr.nd.c, Again, Pop) ELSE Again(s1)
      \* the end of a case: the block is left, or (C style) the next case's statements follow;
      \* a case without any statement shares those of the case after it
      [] OTHER -> IF fr.n < Len(fr.nd.cases) /\ (fr.nd.style = "c" \/ (fr.b = <<>> /\ ~fr.nd.cases[fr.n].def)) THEN Enter(Pop(s), "switch", fr.nd.cases[fr.n + 1].b, fr.nd, fr.n + 1) ELSE Pop(s)
Step(s) ==
    LET fr == Top(s) IN
    IF s.n > 400 THEN [s EXCEPT !.sig = "long"]
    ELSE IF fr.pc > Len(fr.b) THEN AtEnd([s EXCEPT !.n = @ + 1])
    ELSE
    LET S == fr.b[fr.pc]
        t == [s EXCEPT !.k[Len(s.k)].pc = fr.pc + 1, !.n = @ + 1]
        id(x) == x
        Leave(kinds, x) == LET j == Inner(x, kinds) IN [x EXCEPT !.k = SubSeq(@, 1, j - 1)]
        Cont(x) == LET j == Inner(x, Loops) IN [x EXCEPT !.k = Append(SubSeq(@, 1, j - 1), [x.k[j] EXCEPT !.pc = Len(x.k[j].b) + 1])]
        Brk(x) == Leave(Loops \union {"switch"}, x)
    IN CASE S.op = "u" -> [t EXCEPT !.sig = "mark", !.at = S.id]
         [] S.op = "if" -> LET RECURSIVE Arm(_, _)
                               Arm(x, j) == IF j > Len(S.arms) THEN (IF S.els = <<>> THEN x ELSE Enter(x, "arm", S.els, <<>>, 0))
                                            ELSE With(x, S.arms[j].c, LAMBDA y : Enter(y, "arm", S.arms[j].b, <<>>, 0), LAMBDA y : Arm(y, j + 1))
                           IN Arm(t, 1)
         [] S.op = "while" -> With(t, S.c, LAMBDA y : Enter(y, "while", S.b, S, 0), id)
         [] S.op = "repeat" -> Enter(t, "repeat", S.b, S, 0)
         [] S.op = "cxz" -> Enter(t, "cxz", S.b, S, 0)
         [] S.op = "for" -> LET t1 == Asgs(t, S.init) IN IF t1.sig # "run" THEN t1 ELSE
                            IF Given(S.c) THEN With(t1, S.c, LAMBDA y : Enter(y, "for", S.b, S, 0), id) ELSE Enter(t1, "for", S.b, S, 0)
         [] S.op = "brk" -> IF Given(S.c) THEN With(t, S.c, Brk, id) ELSE Brk(t)
         [] S.op = "cont" -> IF Given(S.c) THEN With(t, S.c, Cont, id) ELSE Cont(t)
         [] OTHER -> IF OpUnk(t, S.a) THEN [t EXCEPT !.sig = "open"] ELSE
                LET v == OpVal(t.m, S.a)
                    t1 == [t EXCEPT !.unk = TRUE, !.m.f.u = TRUE]
                    Hit == {j \in 1..Len(S.cases) : \E q \in 1..Len(S.cases[j].vs) : SExt(S.cases[j].vs[q], Len(v)) = v}
                    D == {j \in 1..Len(S.cases) : S.cases[j].def}
                    E == IF Hit # {} THEN Hit ELSE D
                IN IF E = {} THEN t1 ELSE LET j == CHOOSE j \in E : TRUE IN Enter(t1, "switch", S.cases[j].b, S, j)
RECURSIVE ToMark(_)
ToMark(s) == IF s.sig # "run" THEN s ELSE ToMark(TLCEval(Step(s)))
(* what a user statement does: e.r <<register, value>>s, e.w <<address, bytes>>s, e.f the flags *)
Act(m, e) == LET m1 == FoldLeft(LAMBDA t, q : SetR(t, q[1], q[2]), m, e.r)
                 m2 == FoldLeft(LAMBDA t, q : Store(t, q[1], q[2]), m1, e.w)
             IN [m2 EXCEPT !.f = [z |-> e.f[1] = 1, c |-> e.f[2] = 1, s |-> e.f[3] = 1, o |-> e.f[4] = 1, p |-> e.f[5] = 1, u |-> FALSE]]
SetsAcc(e) == \E j \in 1..Len(e.r) : RegMap[e.r[j][1]][1] = 1 /\ SizeR(e.r[j][1]) >= 4
Resume(s, e) == [s EXCEPT !.m = Act(@, e), !.sig = "run", !.unk = @ /\ ~SetsAcc(e)]
=============================================================================
