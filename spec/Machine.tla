------------------------------ MODULE Machine ------------------------------
(* A processor that executes machine code, over the decoder of X86. State:    *)
(*   r     16 general registers of 8 bytes (the low half in 16/32-bit code)   *)
(*   x     16 vector registers of 16 bytes                                    *)
(*   f     flags z c s o p, and u: they have no defined value                 *)
(*   ip    next instruction; code lies from address 0 on                      *)
(*   w     memory bytes that have been written (others: code, or Fresh)       *)
(*   lo    lowest address of the stack that has been written                  *)
(*   st    "run", or why it stopped: "int" (v: number), "ret" (v: address),   *)
(*         "bad" (v: what)                                                    *)
EXTENDS X86
Fresh == 165                       \* what unwritten stack reads as
StackTop == 1048576                \* initial stack pointer in 32/64-bit code (16-bit code: 61440)
StackSize == 65536
Top0(mode) == IF mode = 16 THEN 61440 ELSE StackTop
W8(v) == ZExt(v, 8)
IntOf(v) == IF Len(v) < 4 THEN FoldRight(LAMBDA x, t : x + 256 * t, v, 0)
            ELSE IF \A k \in 4..Len(v) : v[k] = 0 THEN v[1] + 256 * v[2] + 65536 * v[3] ELSE -1
Bytes(n, k) == SubSeq(Num(n), 1, k)
NoFlags == [z |-> FALSE, c |-> FALSE, s |-> FALSE, o |-> FALSE, p |-> FALSE, u |-> TRUE]

(* ---- registers *)
RegMap0 == (LET all == {R8[k] : k \in 1..16} \union {R8H[k] : k \in 5..8} \union {R16[k] : k \in 1..16} \union {R32[k] : k \in 1..16} \union {R64[k] : k \in 1..16}
                      at(s, n) == {k \in 1..Len(s) : s[k] = n}
                      Of(n) == IF at(R64, n) # {} THEN <<CHOOSE k \in at(R64, n) : TRUE, 8, 0>> ELSE IF at(R32, n) # {} THEN <<CHOOSE k \in at(R32, n) : TRUE, 4, 0>>
                               ELSE IF at(R16, n) # {} THEN <<CHOOSE k \in at(R16, n) : TRUE, 2, 0>> ELSE IF at(R8, n) # {} THEN <<CHOOSE k \in at(R8, n) : TRUE, 1, 0>>
                               ELSE <<(CHOOSE k \in at(R8H, n) : TRUE) - 4, 1, 1>>
                  IN [n \in all |-> Of(n)])
XMap0 == ([n \in {XM[k] : k \in 1..16} |-> CHOOSE k \in 1..16 : XM[k] = n])
RegMap == TLCGet(78)[2]
XMap == TLCGet(78)[3]
Parity == TLCGet(78)[4]
IsGpr(n) == n \in DOMAIN RegMap
GetR(m, n) == LET q == RegMap[n] IN SubSeq(m.r[q[1]], 1 + q[3], q[2] + q[3])
SetR(m, n, v) == LET q == RegMap[n]  old == m.r[q[1]] IN
    [m EXCEPT !.r[q[1]] = CASE q[2] = 8 -> v [] q[2] = 4 -> ZExt(v, 8)
                            [] q[2] = 2 -> v \o SubSeq(old, 3, 8)
                            [] q[3] = 1 -> <<old[1]>> \o v \o SubSeq(old, 3, 8) [] OTHER -> v \o SubSeq(old, 2, 8)]
SizeR(n) == RegMap[n][2]

(* ---- memory *)
Known(m, code, a) == a >= 0 /\ (a < Len(code) \/ a \in DOMAIN m.w \/ (a > m.top - m.room /\ a <= m.top + StackSize))
Get1(m, code, a) == IF a \in DOMAIN m.w THEN m.w[a] ELSE IF a < Len(code) THEN code[a + 1] ELSE Fresh
Load(m, code, a, n) == [k \in 1..n |-> Get1(m, code, a + k - 1)]
Store(m, a, v) == [m EXCEPT !.w = [x \in a..(a + Len(v) - 1) |-> v[x - a + 1]] @@ @]
Bad(m, s) == [m EXCEPT !.st = "bad", !.v = s]
EA(m, a) == LET n == a.a \div 8
                Term(g) == LET v == ZExt(IF IsGpr(g[1]) THEN GetR(m, g[1]) ELSE <<0>>, 8) IN
                           CASE g[2] = 1 -> v [] g[2] = 2 -> Add(v, v) [] g[2] = 3 -> Add(v, Add(v, v))
                             [] g[2] = 4 -> Add(Add(v, v), Add(v, v)) [] g[2] = 5 -> Add(v, Add(Add(v, v), Add(v, v)))
                             [] g[2] = 8 -> LET q == Add(Add(v, v), Add(v, v)) IN Add(q, q) [] OTHER -> LET q == Add(Add(v, v), Add(v, v)) IN Add(v, Add(q, q))
            IN SubSeq(FoldLeft(LAMBDA t, g : Add(t, Term(g)), SExt(a.d, 8), SetToSeq(a.regs)), 1, n)
Addr(m, a) == IF a.seg \in {"fs", "gs"} THEN -1 ELSE IntOf(EA(m, a))

(* ---- arithmetic on bytes *)
RECURSIVE AddCB(_, _, _, _), SubCB(_, _, _, _)
AddCB(x, y, k, c) == IF k > Len(x) THEN <<c>> ELSE LET t == x[k] + y[k] + c IN <<t % 256>> \o AddCB(x, y, k + 1, t \div 256)
SubCB(x, y, k, c) == IF k > Len(x) THEN <<c>> ELSE LET t == x[k] - y[k] - c IN <<t % 256>> \o SubCB(x, y, k + 1, IF t < 0 THEN 1 ELSE 0)
Bit(n, b) == (n \div (2 ^ b)) % 2
Parity0 == ([n \in 0..255 |-> (Bit(n, 0) + Bit(n, 1) + Bit(n, 2) + Bit(n, 3) + Bit(n, 4) + Bit(n, 5) + Bit(n, 6) + Bit(n, 7)) % 2 = 0])
AndB(x, y) == TLCGet(78)[1][x][y]
OrB(x, y) == x + y - AndB(x, y)
XorB(x, y) == x + y - 2 * AndB(x, y)
ASSUME TLCSet(78, <<[x \in 0..255 |-> [y \in 0..255 |-> (Bit(x, 0) * Bit(y, 0)) + 2 * (Bit(x, 1) * Bit(y, 1)) + 4 * (Bit(x, 2) * Bit(y, 2)) + 8 * (Bit(x, 3) * Bit(y, 3))
                        + 16 * (Bit(x, 4) * Bit(y, 4)) + 32 * (Bit(x, 5) * Bit(y, 5)) + 64 * (Bit(x, 6) * Bit(y, 6)) + 128 * (Bit(x, 7) * Bit(y, 7))]], TLCEval(RegMap0), TLCEval(XMap0), TLCEval(Parity0)>>)
Neg(v) == v[Len(v)] >= 128
ZSP(v) == [z |-> \A k \in 1..Len(v) : v[k] = 0, c |-> FALSE, s |-> Neg(v), o |-> FALSE, p |-> Parity[v[1]], u |-> FALSE]
Zeros(n) == [k \in 1..n |-> 0]
\* <<result, flags>>
AddOp(x, y, c) == LET t == AddCB(x, y, 1, c)  v == Front(t) IN <<v, [ZSP(v) EXCEPT !.c = t[Len(t)] = 1, !.o = Neg(x) = Neg(y) /\ Neg(v) # Neg(x)]>>
SubOp(x, y, c) == LET t == SubCB(x, y, 1, c)  v == Front(t) IN <<v, [ZSP(v) EXCEPT !.c = t[Len(t)] = 1, !.o = Neg(x) # Neg(y) /\ Neg(v) # Neg(x)]>>
Bitw(op, x, y) == LET v == [k \in 1..Len(x) |-> CASE op = "and" -> AndB(x[k], y[k]) [] op = "or" -> OrB(x[k], y[k]) [] OTHER -> XorB(x[k], y[k])] IN <<v, ZSP(v)>>
RECURSIVE Shl1(_, _), Shr1(_, _, _)
Shl1(v, n) == IF n = 0 THEN v ELSE Shl1([k \in 1..Len(v) |-> ((2 * v[k]) % 256) + (IF k > 1 THEN v[k - 1] \div 128 ELSE 0)], n - 1)
Shr1(v, n, top) == IF n = 0 THEN v ELSE Shr1([k \in 1..Len(v) |-> (v[k] \div 2) + (IF k < Len(v) THEN 128 * (v[k + 1] % 2) ELSE 128 * top)], n - 1, top)
Cond(f, c) == CASE c = "o" -> f.o [] c = "no" -> ~f.o [] c = "b" -> f.c [] c = "ae" -> ~f.c [] c = "e" -> f.z [] c = "ne" -> ~f.z
                [] c = "be" -> f.c \/ f.z [] c = "a" -> ~(f.c \/ f.z) [] c = "s" -> f.s [] c = "ns" -> ~f.s [] c = "p" -> f.p [] c = "np" -> ~f.p
                [] c = "l" -> f.s # f.o [] c = "ge" -> f.s = f.o [] c = "le" -> f.z \/ f.s # f.o [] OTHER -> ~(f.z \/ f.s # f.o)

(* ---- operands *)
Sz(a) == IF a.k = "r" THEN (IF IsGpr(a.n) THEN SizeR(a.n) ELSE 16) ELSE IF a.k = "m" THEN a.sz ELSE Len(a.v)
Val(m, code, a) == IF a.k = "r" THEN (IF IsGpr(a.n) THEN GetR(m, a.n) ELSE m.x[XMap[a.n]]) ELSE IF a.k = "i" THEN a.v ELSE Load(m, code, Addr(m, a), a.sz)
Put(m, a, v) == IF a.k = "r" THEN (IF IsGpr(a.n) THEN SetR(m, a.n, v) ELSE [m EXCEPT !.x[XMap[a.n]] = v]) ELSE Store(m, Addr(m, a), v)
SP(m, mode) == IntOf(SubSeq(m.r[5], 1, IF mode = 16 THEN 2 ELSE 8))
SetSP(m, n) == [[m EXCEPT !.r[5] = Num(n)] EXCEPT !.lo = IF n < @ THEN n ELSE @]
Push(m, mode, v) == LET n == SP(m, mode) - Len(v) IN Store(SetSP(m, n), n, v)
Wd(mode) == mode \div 8
\* the low bytes of a full register
LowR(m, n, k) == SubSeq(m.r[n], 1, k)
Jump(m, code, t) == IF t < 0 THEN Bad(m, "jump out of the code") ELSE [m EXCEPT !.ip = t]

(* ---- near branches, which X86's table does not have: [op, c, to, len] *)
Rel(b, p, n) == LET u == FoldRight(LAMBDA x, t : x + 256 * t, SubSeq(b, p, p + (IF n > 3 THEN 3 ELSE n) - 1), 0) IN
    IF b[p + n - 1] < 128 THEN u ELSE u - (IF n = 1 THEN 256 ELSE IF n = 2 THEN 65536 ELSE 16777216)
Branch(b, p0, mode) ==
    LET opsz == b[p0] = 102  adsz == b[p0] = 103
        p == IF opsz \/ adsz THEN p0 + 1 ELSE p0
        n == IF mode = 64 THEN 4 ELSE IF (mode = 16) # opsz THEN 2 ELSE 4
        mk(op, c, hdr, k) == LET e == p + hdr + k IN [op |-> op, c |-> c, to |-> (e - 1) + Rel(b, p + hdr, k), len |-> e - p0]
        x == b[p]
    IN CASE x \in 112..127 -> mk("j", Cc[x - 111], 1, 1)
         [] x = 15 /\ b[p + 1] \in 128..143 -> mk("j", Cc[b[p + 1] - 127], 2, n)
         [] x = 235 -> mk("jmp", "", 1, 1)
         [] x = 233 -> mk("jmp", "", 1, n)
         [] x = 232 -> mk("call", "", 1, n)
         [] x \in 224..227 -> mk(<<"loopne", "loope", "loop", "jcxz">>[x - 223], IF adsz THEN "a" ELSE "", 1, 1)
         [] OTHER -> [op |-> "", c |-> "", to |-> 0, len |-> 0]
DoBranch(m0, b, mode) ==
    LET m == [m0 EXCEPT !.ip = @ + b.len]
        csz == IF mode = 64 THEN (IF b.c = "a" THEN 4 ELSE 8) ELSE IF (mode = 32) # (b.c = "a") THEN 4 ELSE 2
        cx == Front(SubCB(LowR(m, 2, csz), Bytes(1, csz), 1, 0))
        mc == [m EXCEPT !.r[2] = IF csz = 4 THEN ZExt(cx, 8) ELSE cx \o SubSeq(@, csz + 1, 8)]
        zero(v) == \A k \in 1..Len(v) : v[k] = 0
    IN CASE b.op = "j" -> IF m.f.u THEN Bad(m, "jump on undefined flags") ELSE IF Cond(m.f, b.c) THEN [m EXCEPT !.ip = b.to] ELSE m
         [] b.op = "jmp" -> [m EXCEPT !.ip = b.to]
         [] b.op = "call" -> [Push(m, mode, Bytes(m.ip, Wd(mode))) EXCEPT !.ip = b.to]
         [] b.op = "jcxz" -> IF zero(LowR(m, 2, csz)) THEN [m EXCEPT !.ip = b.to] ELSE m
         [] b.op = "loop" -> IF zero(cx) THEN mc ELSE [mc EXCEPT !.ip = b.to]
         [] OTHER -> IF m.f.u THEN Bad(m, "loop on undefined flags") ELSE IF ~zero(cx) /\ m.f.z = (b.op = "loope") THEN [mc EXCEPT !.ip = b.to] ELSE mc

(* ---- instructions *)
VecMoves == {"movaps", "movups", "movapd", "movupd", "movdqa", "movdqu", "lddqu"}
Plain(op) == IF op \in {"vmovaps", "vmovups", "vmovapd", "vmovupd", "vmovdqa", "vmovdqu", "vmovd", "vmovq", "vmovss", "vmovsd"} THEN SubSeq(op, 2, Len(op)) ELSE op
FullReg(m, mode, n) == LowR(m, n, Wd(mode))
Alu2 == {"add", "sub", "adc", "sbb", "and", "or", "xor", "cmp", "test"}
AluOp(op, x, y, c) == CASE op = "add" -> AddOp(x, y, 0) [] op = "adc" -> AddOp(x, y, c) [] op \in {"sub", "cmp"} -> SubOp(x, y, 0) [] op = "sbb" -> SubOp(x, y, c)
                        [] op = "test" -> Bitw("and", x, y) [] OTHER -> Bitw(op, x, y)
CmovOf(op) == {c \in {Cc[k] : k \in 1..16} : "cmov" \o c = op}
SetOf(op) == {c \in {Cc[k] : k \in 1..16} : "set" \o c = op}
Exec(m0, code, d, mode) ==
    LET m == [m0 EXCEPT !.ip = @ + d.len]
        A == d.args
        op == Plain(d.op)
        a == A[1]
        b == A[2]
        V(x) == Val(m, code, x)
        fine == \A k \in 1..Len(A) : A[k].k # "m" \/ op = "lea" \/ op = "nop" \/ LET q == Addr(m, A[k]) IN
                     q >= 0 /\ (Known(m, code, q) \/ (op \in {"mov", "push"} /\ FALSE)) /\ (A[k].sz < 2 \/ Known(m, code, q + A[k].sz - 1))
        imm(n) == IF b.k = "i" THEN SExt(b.v, n) ELSE V(b)
        c1 == IF m.f.c THEN 1 ELSE 0
    IN IF d.n # 1 THEN Bad(m, "undecodable")
       ELSE IF d.rep # "" \/ d.lock THEN Bad(m, "prefix")
       ELSE IF ~fine THEN Bad(m, "address outside")
       ELSE
       CASE op \in Alu2 -> LET t == AluOp(op, V(a), imm(Sz(a)), c1) IN
                IF op \in {"cmp", "test"} THEN [m EXCEPT !.f = t[2]] ELSE [Put(m, a, t[1]) EXCEPT !.f = t[2]]
         [] op = "mov" /\ a.k = "r" /\ ~IsGpr(a.n) -> Bad(m, "mov to a special register")
         [] op = "mov" /\ b.k = "r" /\ ~IsGpr(b.n) -> Bad(m, "mov from a special register")
         [] op = "mov" -> Put(m, a, imm(Sz(a)))
         [] op = "movzx" -> Put(m, a, ZExt(V(b), Sz(a)))
         [] op \in {"movsx", "movsxd"} -> Put(m, a, SExt(V(b), Sz(a)))
         [] op = "lea" -> Put(m, a, ZExt(EA(m, b), Sz(a)))
         [] op = "push" -> IF a.k = "r" /\ ~IsGpr(a.n) THEN Bad(m, "push of a segment register") ELSE Push(m, mode, V(a))
         [] op = "pop" -> IF a.k = "r" /\ ~IsGpr(a.n) THEN Bad(m, "pop of a segment register") ELSE
                LET s == SP(m, mode) IN LET q == SetSP(m, s + Sz(a)) IN Put(q, a, Load(m, code, s, Sz(a)))
         [] op \in {"inc", "dec"} -> LET t == IF op = "inc" THEN AddOp(V(a), Bytes(1, Sz(a)), 0) ELSE SubOp(V(a), Bytes(1, Sz(a)), 0) IN
                [Put(m, a, t[1]) EXCEPT !.f = [t[2] EXCEPT !.c = m.f.c, !.u = m.f.u /\ FALSE]]
         [] op = "neg" -> LET t == SubOp(Zeros(Sz(a)), V(a), 0) IN [Put(m, a, t[1]) EXCEPT !.f = t[2]]
         [] op = "not" -> Put(m, a, [k \in 1..Sz(a) |-> 255 - V(a)[k]])
         [] op = "xchg" -> LET va == V(a)  vb == V(b) IN Put(Put(m, a, vb), b, va)
         [] op \in {"shl", "shr", "sar"} /\ b.k = "i" /\ b.v[1] > 0 -> LET n == b.v[1] % (IF Sz(a) = 8 THEN 64 ELSE 32)
                        v == IF op = "shl" THEN Shl1(V(a), n) ELSE Shr1(V(a), n, IF op = "sar" /\ Neg(V(a)) THEN 1 ELSE 0)
                    IN [Put(m, a, v) EXCEPT !.f = [ZSP(v) EXCEPT !.u = TRUE]]
         [] op = "jmp" -> Jump(m, code, IntOf(V(a)))
         [] op = "call" -> Jump(Push(m, mode, Bytes(m.ip, Wd(mode))), code, IntOf(V(a)))
         [] op = "ret" -> LET s == SP(m, mode)  t == Load(m, code, s, Wd(mode))  n == IF A = <<>> THEN 0 ELSE IntOf(a.v) IN
                [SetSP(m, s + Wd(mode) + n) EXCEPT !.st = IF IntOf(t) = m.back THEN "ret" ELSE "run", !.v = 0, !.ip = IntOf(t)]
         [] op = "leave" -> LET s == IntOf(FullReg(m, mode, 6)) IN [SetSP(m, s + Wd(mode)) EXCEPT !.r[6] = ZExt(Load(m, code, s, Wd(mode)), 8)]
         [] op = "enter" -> IF b.v # <<0>> THEN Bad(m, "enter") ELSE LET q == Push(m, mode, FullReg(m, mode, 6)) IN
                SetSP([q EXCEPT !.r[6] = q.r[5]], SP(q, mode) - IntOf(a.v))
         [] op = "int3" -> [m EXCEPT !.st = "int", !.v = 3]
         [] op = "int" -> [m EXCEPT !.st = "int", !.v = a.v[1]]
         [] op = "nop" -> m
         [] op = "cbw" -> SetR(m, "ax", SExt(GetR(m, "al"), 2))
         [] op = "cwde" -> SetR(m, "eax", SExt(GetR(m, "ax"), 4))
         [] op = "cdqe" -> SetR(m, "rax", SExt(GetR(m, "eax"), 8))
         [] op = "cwd" -> SetR(m, "dx", IF Neg(GetR(m, "ax")) THEN <<255, 255>> ELSE <<0, 0>>)
         [] op = "cdq" -> SetR(m, "edx", IF Neg(GetR(m, "eax")) THEN <<255, 255, 255, 255>> ELSE Zeros(4))
         [] op = "cqo" -> SetR(m, "rdx", IF Neg(GetR(m, "rax")) THEN [k \in 1..8 |-> 255] ELSE Zeros(8))
         [] op = "cld" -> m
         [] op \in VecMoves -> IF Sz(a) # 16 THEN Bad(m, "vector move") ELSE Put(m, a, V(b))
         [] op \in {"movd", "movq", "movss", "movsd"} /\ Len(A) = 2 ->
                LET n == CASE op \in {"movd", "movss"} -> 4 [] OTHER -> 8
                    n1 == IF op = "movd" /\ ((a.k = "r" /\ Sz(a) = 8) \/ (b.k = "r" /\ Sz(b) = 8)) THEN 8 ELSE n
                    vb == IF b.k = "m" THEN Load(m, code, Addr(m, b), n1) ELSE SubSeq(V(b), 1, n1)
                IN IF a.k = "m" THEN Store(m, Addr(m, a), vb)
                   ELSE IF IsGpr(a.n) THEN Put(m, a, ZExt(vb, Sz(a)))
                   ELSE IF op \in {"movss", "movsd"} /\ b.k = "r" THEN Put(m, a, vb \o SubSeq(V(a), n1 + 1, 16)) ELSE Put(m, a, ZExt(vb, 16))
         [] op \in {"xorps", "pxor", "xorpd"} /\ b.k = "r" -> Put(m, a, Bitw("xor", V(a), V(b))[1])
         [] CmovOf(op) # {} -> IF Cond(m.f, CHOOSE c \in CmovOf(op) : TRUE) THEN Put(m, a, V(b)) ELSE Put(m, a, V(a))
         [] SetOf(op) # {} -> Put(m, a, IF Cond(m.f, CHOOSE c \in SetOf(op) : TRUE) THEN <<1>> ELSE <<0>>)
         [] OTHER -> Bad(m, "no meaning given: " \o d.op)
\* one instruction; code has to go on for 16 bytes behind its end (len)
StepM(m, code, len, mode) ==
    IF m.ip < 0 \/ m.ip >= len THEN Bad(m, "left the code")
    ELSE LET b == Branch(code, m.ip + 1, mode) IN
         IF b.op # "" THEN DoBranch(m, b, mode) ELSE Exec(m, code, Decode(code, m.ip + 1, mode), mode)
(* runs until it stops or n instructions are done *)
RECURSIVE RunM(_, _, _, _, _)
RunM(m, code, len, mode, n) == IF m.st # "run" \/ n = 0 THEN m ELSE RunM(StepM(m, code, len, mode), code, len, mode, n - 1)
Start(mode, ip) == [r |-> [k \in 1..16 |-> IF k = 5 THEN Num(Top0(mode)) ELSE Zeros(8)], x |-> [k \in 1..16 |-> Zeros(16)], f |-> NoFlags, ip |-> ip,
                    w |-> <<>>, lo |-> Top0(mode), room |-> StackSize, top |-> Top0(mode), back |-> -2, st |-> "run", v |-> 0]
=============================================================================
