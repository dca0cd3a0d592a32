------------------------------ MODULE X86Ins -------------------------------
(* Instructions as they are written: when some encoding exists (Encodable),   *)
(* and when decoded machine code means the same (Same). A written instruction *)
(* is [op, args, rep, lock]; immediates and displacements have 8 bytes.       *)
EXTENDS X86

(* ---- names for the same operation *)
CcAlias == << <<"c", "b">>, <<"nae", "b">>, <<"nc", "ae">>, <<"nb", "ae">>, <<"z", "e">>, <<"nz", "ne">>, <<"na", "be">>, <<"nbe", "a">>,
              <<"pe", "p">>, <<"po", "np">>, <<"nge", "l">>, <<"nl", "ge">>, <<"ng", "le">>, <<"nle", "g">> >>
AliasPairs == TLCEval({ <<"sal", "shl">>, <<"xlat", "xlatb">>, <<"retn", "ret">>, <<"iretw", "iret">>, <<"pushaw", "pusha">>, <<"popaw", "popa">>, <<"pushfw", "pushf">>, <<"popfw", "popf">>, <<"fwait", "wait">> }
    \union {<<"cmov" \o CcAlias[k][1], "cmov" \o CcAlias[k][2]>> : k \in 1..Len(CcAlias)}
    \union {<<"set" \o CcAlias[k][1], "set" \o CcAlias[k][2]>> : k \in 1..Len(CcAlias)}
    \union { <<"j" \o CcAlias[k][1], "j" \o CcAlias[k][2]>> : k \in 1..Len(CcAlias)})
AliasNames == TLCEval({a[1] : a \in AliasPairs})
Alias(n) == IF n \in AliasNames THEN (CHOOSE a \in AliasPairs : a[1] = n)[2] ELSE n
Imm(n) == [k |-> "i", v |-> Byte8(n)]
(* a segment register takes the low word, whatever the width that is written *)
WordOf(n) == LET s == {k \in 1..16 : n \in {R32[k], R64[k]}} IN IF s = {} THEN n ELSE R16[CHOOSE k \in s : TRUE]
(* the form the table has *)
Norm(w) ==
    LET v == [w EXCEPT !.op = Alias(w.op)] IN
    CASE v.op = "imul" /\ Len(v.args) = 2 /\ v.args[2].k = "i" -> [v EXCEPT !.args = <<v.args[1], v.args[1], v.args[2]>>]
      [] v.op \in {"fcom", "fcomp", "fucom", "fucomp", "fxch"} /\ v.args = <<>> -> [v EXCEPT !.args = <<[k |-> "r", n |-> "st(1)"]>>]
      [] v.op \in {"fadd", "fmul", "fsub", "fsubr", "fdiv", "fdivr"} /\ v.args = <<>> ->
            [v EXCEPT !.op = v.op \o "p", !.args = << [k |-> "r", n |-> "st(1)"], [k |-> "r", n |-> "st(0)"] >>]
      [] v.op \in {"aam", "aad"} /\ v.args = <<>> -> [v EXCEPT !.args = <<Imm(10)>>]
      [] v.op = "int" /\ Len(v.args) = 1 /\ v.args[1].k = "i" /\ v.args[1].v = Byte8(3) -> [v EXCEPT !.op = "int3", !.args = <<>>]
      [] v.op \in {"ret", "retf"} /\ Len(v.args) = 1 /\ v.args[1].k = "i" /\ SubSeq(v.args[1].v, 1, 2) = <<0, 0>> -> [v EXCEPT !.args = <<>>]
      [] v.op = "mov" /\ Len(v.args) = 2 /\ v.args[1].k = "r" /\ v.args[1].n \in {"es", "cs", "ss", "ds", "fs", "gs"} /\ v.args[2].k = "r" ->
            [v EXCEPT !.args = <<v.args[1], [k |-> "r", n |-> WordOf(v.args[2].n)]>>]
      [] v.op = "lea" /\ Len(v.args) = 2 /\ v.args[2].k = "m" -> [v EXCEPT !.args[2].seg = ""]
      [] OTHER -> v

(* ---- sameness *)
Low8(v, n) == SubSeq(v, 1, n)
StackRegs == {"bp", "ebp", "esp", "rbp", "rsp"}
SegsOf(m, mode) ==
    IF mode = 64 THEN (IF m.seg \in {"fs", "gs"} THEN {m.seg} ELSE {"flat"})
    ELSE IF m.seg # "" THEN {m.seg}
    ELSE {IF m.base \in StackRegs THEN "ss" ELSE "ds"}
SameArg(w, d, mode) ==
    w.k = d.k /\
    CASE w.k = "r" -> w.n = d.n
      [] w.k = "i" -> Low8(w.v, Len(d.v)) = d.v
      [] OTHER -> /\ w.regs = d.regs /\ (w.regs # {} => w.a = d.a)
                  /\ (w.sz = 0 \/ d.sz = 0 \/ w.sz = d.sz)
                  /\ SegsOf(w, mode) \intersect SegsOf(d, mode) # {}
                  /\ IF w.regs = {} /\ Len(d.d) < 8 THEN SExt(Low8(w.d, Len(d.d)), 8) = SExt(d.d, 8) \/ ZExt(Low8(w.d, Len(d.d)), 8) = ZExt(d.d, 8)
                     ELSE Low8(w.d, Len(d.d)) = d.d
SameArgs(x, y, mode) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : SameArg(x[k], y[k], mode)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
RepOf(r) == CASE r \in {"rep", "repe", "repz"} -> "f3" [] r \in {"repne", "repnz"} -> "f2" [] OTHER -> ""
Same(w0, d, mode) ==
    LET w == Norm(w0)  dd == Norm([op |-> d.op, args |-> [k \in 1..Len(d.args) |-> IF d.args[k].k = "i" THEN [k |-> "i", v |-> ZExt(d.args[k].v, 8)] ELSE d.args[k]], rep |-> d.rep, lock |-> d.lock])
    IN /\ d.n = 1
       /\ RepOf(w.rep) = d.rep /\ w.lock = d.lock
       /\ \/ w.op = dd.op /\ (SameArgs(w.args, IF dd.args = <<>> THEN <<>> ELSE d.args, mode) \/ (w.op \in {"test", "xchg"} /\ SameArgs(Rev(w.args), d.args, mode)))
          \/ w.op = "xchg" /\ d.op = "nop" /\ w.args[1] = w.args[2] /\ w.args[1].k = "r" /\ w.args[1].n \in {"ax", "rax"} \union (IF mode = 64 THEN {} ELSE {"eax"})

(* ---- encodability *)
Set(s) == {s[k] : k \in 1..Len(s)}
Top(mode) == IF mode = 64 THEN 16 ELSE 8
GprSet(sz, mode) == CASE sz = 1 -> Set(R8H) \union (IF mode = 64 THEN Set(R8) ELSE {})
                      [] sz = 2 -> Set(SubSeq(R16, 1, Top(mode))) [] sz = 4 -> Set(SubSeq(R32, 1, Top(mode)))
                      [] OTHER -> IF mode = 64 THEN Set(R64) ELSE {}
VecSet(l, mode) == Set(SubSeq(IF l = 1 THEN YM ELSE XM, 1, Top(mode)))
HighB == {"ah", "ch", "dh", "bh"}
NeedRex == Set(SubSeq(R8, 5, 16)) \union Set(SubSeq(R16, 9, 16)) \union Set(SubSeq(R32, 9, 16)) \union Set(R64)
RexIn(x) == IF x.k = "r" THEN x.n \in NeedRex ELSE IF x.k = "m" THEN \E g \in x.regs : g[1] \in Set(SubSeq(R32, 9, 16)) \union Set(SubSeq(R64, 9, 16)) ELSE FALSE
AddrOk(m, mode) ==
    LET n == {g[1] : g \in m.regs} IN
    /\ m.a = 16 => mode # 64
    /\ m.a = 64 => mode = 64
    /\ n \subseteq (CASE m.a = 16 -> {"bx", "bp", "si", "di"} [] m.a = 32 -> Set(SubSeq(R32, 1, Top(mode))) [] OTHER -> Set(R64))
IsSz(x, n) == x.sz = n \/ x.sz = 0
(* operand x is of kind a when v-size is vs and vector length is l *)
Match(a, x, vs, l, mode) ==
    LET c == a[1]
        g == IF c \in {"M", "Q", "F"} THEN 0 ELSE CASE a[2] = "b" -> 1 [] a[2] = "w" -> 2 [] a[2] = "d" -> 4 [] a[2] = "q" -> 8 [] a[2] = "v" -> vs [] a[2] = "y" -> (IF vs = 8 THEN 8 ELSE 4) [] OTHER -> 0
        isreg(S) == x.k = "r" /\ x.n \in S
        ismem(n) == x.k = "m" /\ IsSz(x, n) /\ AddrOk(x, mode)
        vl == IF c \in {"M", "Q"} THEN 0 ELSE IF a[2] \in {"y", "y2"} \/ (a[2] = "x" /\ l = 1) THEN 1 ELSE 0
    IN CASE c = "E" -> isreg(GprSet(g, mode)) \/ ismem(g)
         [] c \in {"G", "R", "Z"} -> isreg(GprSet(g, mode))
         [] c = "A" -> isreg({Gpr(g, 0, FALSE)})
         [] c = "M" -> ismem(IF a[2] = 0 /\ x.k = "m" THEN x.sz ELSE a[2])
         [] c = "MV" -> ismem(CASE a[2] = "v" -> vs [] a[2] = "p" -> vs + 2 [] a[2] = "2v" -> 2 * vs [] a[2] = "y" -> (IF vs = 8 THEN 8 ELSE 4) [] OTHER -> (IF l = 1 THEN 32 ELSE 16))
         [] c = "F" -> isreg({a[2]})
         [] c = "1" -> x.k = "i" /\ x.v = Byte8(1)
         [] c = "I" -> x.k = "i" /\ (CASE a[2] = "b" -> Fits(x.v, 1) [] a[2] = "w" -> Fits(x.v, 2)
                                       [] a[2] = "z" -> IF vs = 8 THEN FitsS(x.v, 4) ELSE Fits(x.v, vs)
                                       [] a[2] = "s" -> Fits(x.v, vs) /\ Low8(x.v, vs) = SExt(Low8(x.v, 1), vs)
                                       [] OTHER -> Fits(x.v, vs))
         [] c = "O" -> ismem(g) /\ x.regs = {}
         [] c = "S" -> isreg({"es", "cs", "ss", "ds", "fs", "gs"})
         [] c = "C" -> isreg({"cr0", "cr2", "cr3", "cr4"} \union (IF mode = 64 THEN {"cr8"} ELSE {}))
         [] c = "D" -> isreg({"dr0", "dr1", "dr2", "dr3", "dr6", "dr7"})
         [] c \in {"P", "N"} -> isreg(Set(MM))
         [] c = "Q" -> isreg(Set(MM)) \/ ismem(a[2])
         [] c = "H" /\ a[2] = "y" -> isreg(GprSet(g, mode))
         [] c \in {"V", "H", "U", "L"} -> isreg(VecSet(vl, mode))
         [] c = "W" -> isreg(VecSet(vl, mode)) \/ ismem(IF a[2] = "x" THEN (IF l = 1 THEN 32 ELSE 16) ELSE a[3])
         [] OTHER -> isreg(Set(ST))
VSizes(r, mode) ==
    IF mode = 64 THEN (IF "f64" \in r.fl THEN {8} ELSE IF "d64" \in r.fl THEN {2, 8} ELSE IF "noq" \in r.fl THEN {2, 4} ELSE {2, 4, 8}) ELSE {2, 4}
Covers(r, w, mode) ==
    /\ Len(r.args) = Len(w.args)
    /\ ("i64" \in r.fl => mode # 64) /\ ("o64" \in r.fl => mode = 64)
    /\ ("sized" \in r.fl => mode = 64 \/ w.op # r.op[3] \/ r.op[3] \in {r.op[1], r.op[2]})
    /\ ("sized" \in r.fl /\ mode = 64 /\ "d64" \in r.fl => w.op # r.op[2])
    /\ \E vs \in VSizes(r, mode), l \in {0, 1} :
        /\ ("l0" \in r.fl \/ "vex" \notin r.fl => l = 0) /\ ("l1" \in r.fl => l = 1)
        /\ ("w1" \in r.fl /\ "vex" \notin r.fl => mode = 64)
        /\ \A k \in 1..Len(w.args) : Match(r.args[k], w.args[k], vs, l, mode)
    /\ ~((\E k \in 1..Len(w.args) : w.args[k].k = "r" /\ w.args[k].n \in HighB) /\ (\E k \in 1..Len(w.args) : RexIn(w.args[k])))
ByName == TLCGet(77).names
Orders(w) == IF w.op \in {"test", "xchg"} /\ Len(w.args) = 2 THEN {w, [w EXCEPT !.args = Rev(@)]} ELSE {w}
Encodable(w0, mode) == LET w == Norm(w0) IN
    w.op \in DOMAIN ByName /\ \E o \in Orders(w), r \in ByName[w.op] : Covers(Rows[r], o, mode)
=============================================================================
