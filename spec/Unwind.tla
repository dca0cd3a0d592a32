------------------------------- MODULE Unwind -------------------------------
(* The unwinding of a Win64 function, as the x64 exception handling document  *)
(* defines it: UNWIND_INFO records and what they recover from a machine state  *)
(* (of Machine), anywhere in the function but in its epilogue.                *)
(*   x   bytes of .xdata        u   where a record starts, from 0             *)
EXTENDS Machine
U8(x, p) == x[p + 1]
U16(x, p) == x[p + 1] + 256 * x[p + 2]
U24(x, p) == U16(x, p) + 65536 * x[p + 3]   \* 32-bit fields whose last byte is zero
Version(x, u) == U8(x, u) % 8
Flags(x, u) == U8(x, u) \div 8
PrologSize(x, u) == U8(x, u + 1)
Count(x, u) == U8(x, u + 2)
FrameReg(x, u) == U8(x, u + 3) % 16
FrameOfs(x, u) == 16 * (U8(x, u + 3) \div 16)
Slots(op, info) == CASE op = 1 /\ info = 1 -> 3 [] op = 1 -> 2 [] op \in {4, 8} -> 2 [] op \in {5, 9} -> 3 [] OTHER -> 1
RECURSIVE CodesFrom(_, _, _, _)
\* <<[at, op, info, w (word), d (double word)]>>; op -1: behind the end
CodesFrom(x, u, k, n) ==
    IF k >= n THEN <<>>
    ELSE LET p == u + 4 + 2 * k
             op == U8(x, p + 1) % 16  info == U8(x, p + 1) \div 16  s == Slots(op, info)
         IN IF k + s > n THEN <<[at |-> 0, op |-> -1, info |-> 0, w |-> 0, d |-> 0]>>
            ELSE <<[at |-> U8(x, p), op |-> op, info |-> info, w |-> IF s = 2 THEN U16(x, p + 2) ELSE 0, d |-> IF s = 3 THEN U24(x, p + 2) ELSE 0]>> \o CodesFrom(x, u, k + s, n)
Codes(x, u) == CodesFrom(x, u, 0, Count(x, u))
RecordSize(x, u) == 4 + 2 * (Count(x, u) + (Count(x, u) % 2)) + (IF Flags(x, u) # 0 THEN 4 ELSE 0)
\* what has to hold of a record: the codes fit, are of known kinds, lie in the prologue and stand in descending order
WellFormed(x, u) ==
    /\ Version(x, u) = 1
    /\ u % 4 = 0
    /\ LET C == Codes(x, u) IN
       /\ \A k \in 1..Len(C) : C[k].op \in {0, 1, 2, 3, 4, 5, 8, 9, 10} /\ C[k].at <= PrologSize(x, u)
       /\ \A k \in 1..Len(C) - 1 : C[k].at >= C[k + 1].at
       /\ (FrameReg(x, u) # 0) = (\E k \in 1..Len(C) : C[k].op = 3)
\* one code undone, with the frame's base fb
Undo(code, fb, fr, m, c) ==
    LET s == SP(m, 64)
        reg(a) == [m EXCEPT !.r[c.info + 1] = Load(m, code, a, 8)]
        xmm(a) == [m EXCEPT !.x[c.info + 1] = Load(m, code, a, 16)]
    IN CASE c.op = 0 -> [reg(s) EXCEPT !.r[5] = Num(s + 8)]
         [] c.op = 1 -> [m EXCEPT !.r[5] = Num(s + (IF c.info = 0 THEN 8 * c.w ELSE c.d))]
         [] c.op = 2 -> [m EXCEPT !.r[5] = Num(s + 8 * c.info + 8)]
         [] c.op = 3 -> [m EXCEPT !.r[5] = Num(fb)]
         [] c.op = 4 -> reg(fb + 8 * c.w)
         [] c.op = 5 -> reg(fb + c.d)
         [] c.op = 8 -> xmm(fb + 16 * c.w)
         [] c.op = 9 -> xmm(fb + c.d)
         [] OTHER -> m
\* the caller's state; off: how far the function has got
Unwound(m, code, x, u, off) ==
    LET inpro == off < PrologSize(x, u)
        C == SelectSeq(Codes(x, u), LAMBDA c : ~inpro \/ c.at <= off)
        set == \E k \in 1..Len(C) : C[k].op = 3
        fb == IF FrameReg(x, u) # 0 /\ (set \/ ~inpro) THEN IntOf(m.r[FrameReg(x, u) + 1]) - FrameOfs(x, u) ELSE SP(m, 64)
        t == FoldLeft(LAMBDA a, c : Undo(code, fb, 0, a, c), m, C)
        mach == C # <<>> /\ C[Len(C)].op = 10
        s == SP(t, 64) + (IF mach THEN 8 * C[Len(C)].info ELSE 0)
        ra == IntOf(Load(t, code, s, 8))
    IN [t EXCEPT !.r[5] = IF mach THEN Load(t, code, s + 24, 8) ELSE Num(s + 8), !.ip = ra]
Preserved == {4, 6, 7, 8, 13, 14, 15, 16}     \* rbx rbp rsi rdi r12-r15, counted from 1
PreservedX == 7..16                            \* xmm6-xmm15
\* "" or what isn't recovered; q: the state at the function's entry, back: the return address
Lost(m, q, back, rsp, code, x, u, off) ==
    LET t == Unwound(m, code, x, u, off) IN
    IF t.ip # back THEN "return address"
    ELSE IF t.r[5] # Num(rsp) THEN "stack pointer"
    ELSE IF \E k \in Preserved : t.r[k] # q.r[k] THEN R64[CHOOSE k \in Preserved : t.r[k] # q.r[k]]
    ELSE IF \E k \in PreservedX : t.x[k] # q.x[k] THEN XM[CHOOSE k \in PreservedX : t.x[k] # q.x[k]] ELSE ""
=============================================================================
