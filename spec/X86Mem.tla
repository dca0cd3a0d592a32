------------------------------- MODULE X86Mem ------------------------------
(* All memory operands: base, index, scale and a displacement of each length, *)
(* for every mode and address size. Enc is how the manuals say to encode one; *)
(* Decode must read it back, whatever follows. Each operand is printed for    *)
(* the replay in the assembler.                                               *)
EXTENDS X86Ins, Json
CONSTANT Deep
VARIABLES mode, m, last
vars == <<mode, m, last>>
DispsOf(a) == IF ~Deep THEN {Byte8(0), Byte8(127), SExt(<<128>>, 8), Byte8(128)} ELSE {Byte8(0), Byte8(1), Byte8(127), SExt(<<128>>, 8), Byte8(128), SExt(<<127, 255>>, 8)} \union
              (IF a = 16 THEN {<<52, 18, 0, 0, 0, 0, 0, 0>>} ELSE {<<120, 86, 52, 18, 0, 0, 0, 0>>, SExt(<<0, 0, 0, 128>>, 8)})
Regs(a, md) == CASE a = 16 -> {} [] a = 32 -> Set(SubSeq(R32, 1, Top(md))) [] OTHER -> Set(R64)
Shapes16 == {[base |-> Pairs16[k][1], ix |-> IF Len(Pairs16[k]) = 2 THEN Pairs16[k][2] ELSE "", f |-> 1] : k \in 1..8}
Shapes(a, md) == IF a = 16 THEN Shapes16 ELSE
    [base : Regs(a, md) \union {""}, ix : Regs(a, md) \ {"esp", "rsp"}, f : {1, 2, 4, 8}] \union [base : Regs(a, md), ix : {""}, f : {1}]
Sizes(md) == CASE md = 64 -> {32, 64} [] OTHER -> {16, 32}
Num8(n) == Byte8(n)
No(n, a) == CHOOSE k \in 0..15 : (IF a = 64 THEN R64 ELSE R32)[k + 1] = n
Fits8(d) == FitsS(d, 1)
Mod(n, d, must) == IF d = Byte8(0) /\ ~must THEN 0 ELSE IF Fits8(d) THEN 1 ELSE 2
(* 8A /1: mov cl, m *)
Enc(x, md) ==
    LET s == x.sh  d == x.d  pre == IF x.a = md THEN <<>> ELSE <<103>> IN
    IF x.a = 16 THEN
        LET rm == (CHOOSE k \in 1..8 : Pairs16[k] = (IF s.ix = "" THEN <<s.base>> ELSE <<s.base, s.ix>>)) - 1
            mod == Mod(16, d, rm = 6) IN
        pre \o <<138, mod * 64 + 8 + rm>> \o SubSeq(d, 1, mod)
    ELSE
        LET b == IF s.base = "" THEN 5 ELSE No(s.base, x.a)
            i == IF s.ix = "" THEN 4 ELSE No(s.ix, x.a)
            rex == 64 + (i \div 8) * 2 + (b \div 8)
            sib == s.ix # "" \/ b % 8 = 4
            mod == IF s.base = "" THEN 0 ELSE Mod(32, d, b % 8 = 5)
            dl == IF s.base = "" THEN 4 ELSE <<0, 1, 4>>[mod + 1]
            sc == CASE s.f = 1 -> 0 [] s.f = 2 -> 1 [] s.f = 4 -> 2 [] OTHER -> 3
        IN pre \o (IF rex # 64 THEN <<rex>> ELSE <<>>) \o <<138>> \o
           (IF sib THEN <<mod * 64 + 8 + 4, sc * 64 + (i % 8) * 8 + (b % 8)>> ELSE <<mod * 64 + 8 + (b % 8)>>) \o SubSeq(d, 1, dl)
Sum(sh) == IF sh.ix = "" THEN {<<sh.base, 1>>} ELSE IF sh.base = "" THEN {<<sh.ix, sh.f>>}
           ELSE IF sh.ix = sh.base THEN {<<sh.base, sh.f + 1>>} ELSE {<<sh.base, 1>>, <<sh.ix, sh.f>>}
Want(x) == [op |-> "mov", rep |-> "", lock |-> FALSE, args |-> << [k |-> "r", n |-> "cl"],
            [k |-> "m", sz |-> 1, a |-> x.a, seg |-> "", base |-> x.sh.base, regs |-> Sum(x.sh), d |-> x.d] >>]

Init == \E md \in {16, 32, 64} : \E a \in Sizes(md) : \E sh \in Shapes(a, md) : \E d \in DispsOf(a) :
        mode = md /\ m = [a |-> a, sh |-> sh, d |-> d] /\ last = 0
Next == Deep /\ last < 2 /\ last' = last + 1 /\ UNCHANGED <<mode, m>>
(* what stands behind an instruction has no influence *)
Behind == CASE last = 0 -> [k \in 1..16 |-> 0] [] last = 1 -> [k \in 1..16 |-> 255] [] OTHER -> [k \in 1..16 |-> 36]
RoundTrip == LET e == Enc(m, mode) t == Decode(e \o Behind, 1, mode) IN t.len = Len(e) /\ Same(Want(m), t, mode) /\ Encodable(Want(m), mode)
Inv == RoundTrip /\ (last = 0 => PrintT(<<"@M", mode, ToJson(m)>>))
=============================================================================
