-------------------------------- MODULE X86 --------------------------------
(* Machine code of 8086..x64 processors as a relation between instructions    *)
(* and byte sequences. Rows is the instruction table: which operand kinds an  *)
(* operation has and how they are encoded. Decode(b, p, mode) reads the       *)
(* instruction at b[p]; Encodable(i, mode) says whether some row covers i.    *)
(* Operands:                                                                  *)
(*   [k |-> "r", n |-> name]                                                  *)
(*   [k |-> "i", v |-> bytes, least significant first]                        *)
(*   [k |-> "m", sz |-> bytes (0: not said), a |-> address size in bits,      *)
(*    seg |-> override or "", regs |-> {<<register, factor>>}, d |-> bytes]   *)
(* Numbers are byte sequences (TLC's integers have 32 bits).                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Has(s, x) == \E k \in 1..Len(s) : s[k] = x
Byte8(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
(* b (any length) as n bytes, sign-extended *)
SExt(b, n) == [k \in 1..n |-> IF k <= Len(b) THEN b[k] ELSE IF b[Len(b)] >= 128 THEN 255 ELSE 0]
ZExt(b, n) == [k \in 1..n |-> IF k <= Len(b) THEN b[k] ELSE 0]
(* an 8-byte number fits n bytes, read as signed or as unsigned *)
FitsS(v, n) == v = SExt(SubSeq(v, 1, n), 8)
(* n bytes hold v: signed, unsigned, or the 32 bits that v is computed in *)
Neg33(v) == SubSeq(v, 5, 8) = <<255, 255, 255, 255>> /\ SubSeq(v, 1, 4) # <<0, 0, 0, 0>>
Fits(v, n) == \/ n = 8 \/ FitsS(v, n) \/ v = ZExt(SubSeq(v, 1, n), 8)
              \/ (v = ZExt(SubSeq(v, 1, 4), 8) \/ Neg33(v)) /\ (LET w == SExt(SubSeq(v, 1, 4), 8) u == ZExt(SubSeq(v, 1, 4), 8) IN FitsS(w, n) \/ u = ZExt(SubSeq(v, 1, n), 8))
RECURSIVE AddC(_, _, _, _)
AddC(x, y, k, c) == IF k > Len(x) THEN <<>>
    ELSE LET t == x[k] + y[k] + c IN <<t % 256>> \o AddC(x, y, k + 1, t \div 256)
Add(x, y) == AddC(x, y, 1, 0)
Num(n) == SExt(<<(n % 256), ((n \div 256) % 256), ((n \div 65536) % 256), ((n \div 16777216) % 256)>>, 8)

(* ---- registers *)
R8  == <<"al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b">>
R8H == <<"al", "cl", "dl", "bl", "ah", "ch", "dh", "bh">>
R16 == <<"ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w">>
R32 == <<"eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d", "r15d">>
R64 == <<"rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15">>
SR  == <<"es", "cs", "ss", "ds", "fs", "gs", "?", "?">>
MM  == <<"mm0", "mm1", "mm2", "mm3", "mm4", "mm5", "mm6", "mm7">>
XM  == <<"xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15">>
YM  == <<"ymm0", "ymm1", "ymm2", "ymm3", "ymm4", "ymm5", "ymm6", "ymm7", "ymm8", "ymm9", "ymm10", "ymm11", "ymm12", "ymm13", "ymm14", "ymm15">>
ST  == <<"st(0)", "st(1)", "st(2)", "st(3)", "st(4)", "st(5)", "st(6)", "st(7)">>
CR  == <<"cr0", "cr1", "cr2", "cr3", "cr4", "cr5", "cr6", "cr7", "cr8", "?", "?", "?", "?", "?", "?", "?">>
DR  == <<"dr0", "dr1", "dr2", "dr3", "dr4", "dr5", "dr6", "dr7", "?", "?", "?", "?", "?", "?", "?", "?">>
Gpr(sz, n, rex) == CASE sz = 1 -> IF rex THEN R8[n + 1] ELSE R8H[n + 1]
                     [] sz = 2 -> R16[n + 1] [] sz = 4 -> R32[n + 1] [] OTHER -> R64[n + 1]
Reg(n) == [k |-> "r", n |-> n]
Cc == <<"o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g">>

(* ---- operand kinds *)
Eb == <<"E", "b">>   Ew == <<"E", "w">>   Ev == <<"E", "v">>   Ed == <<"E", "d">>   Ey == <<"E", "y">>
Gb == <<"G", "b">>   Gw == <<"G", "w">>   Gv == <<"G", "v">>   Gd == <<"G", "d">>   Gy == <<"G", "y">>
Rv == <<"R", "v">>   Ry == <<"R", "y">>   Rd == <<"R", "d">>   Rw == <<"R", "w">>
Zb == <<"Z", "b">>   Zv == <<"Z", "v">>   Zy == <<"Z", "y">>
Mem(n) == <<"M", n>>    (* memory only: n bytes; 0: any *)
Mv == <<"MV", "v">>
Mp == <<"MV", "p">>      (* far pointer: v + 2 bytes *)
My == <<"MV", "y">>
Ib == <<"I", "b">>   Iw == <<"I", "w">>   Iz == <<"I", "z">>   Iv == <<"I", "v">>   Is == <<"I", "s">>
Ab == <<"A", "b">>   Av == <<"A", "v">>
Fix(r) == <<"F", r>>
One == <<"1", "">>
Ob == <<"O", "b">>   Ov == <<"O", "v">>
Sw == <<"S", "w">>   Cy == <<"C", "y">>   Dy == <<"D", "y">>
Pq == <<"P", "q">>   Nq == <<"N", "q">>
Q(n) == <<"Q", n>>
Vo == <<"V", "o">>   Vx == <<"V", "x">>   Ho == <<"H", "o">>   Hx == <<"H", "x">>   Uo == <<"U", "o">>   Ux == <<"U", "x">>
Lo == <<"L", "o">>   Lx == <<"L", "x">>
W(n) == <<"W", "o", n>>  (* xmm register or n bytes of memory *)
Wx == <<"W", "x", 0>>    (* whole vector *)
T0 == <<"F", "st(0)">>
Ti == <<"T", "">>

(* ---- the table *)
Row(op, pfx, map, opc, ext, args, fl) ==
    [op |-> op, pfx |-> pfx, map |-> map, opc |-> opc, ext |-> ext, args |-> args, fl |-> fl]
B(op, opc, args) == Row(op, "", 0, opc, -1, args, {})
BX(op, opc, ext, args) == Row(op, "", 0, opc, ext, args, {})
T(op, opc, args) == Row(op, "", 1, opc, -1, args, {})
TX(op, opc, ext, args) == Row(op, "", 1, opc, ext, args, {})
Fl(r, f) == [r EXCEPT !.fl = @ \union f]
(* operation named by the operand size *)
Sized(n2, n4, n8, opc) == Fl(Row(<<n2, n4, n8>>, "", 0, opc, -1, <<>>, {}), {"sized"})
Low(f(_), opc, n) == [k \in 1..n |-> f(opc + k - 1)]    (* register in the low bits of the opcode *)
Cat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)

Alu == Cat([j \in 1..8 |->
    LET i == j - 1  n == <<"add", "or", "adc", "sbb", "and", "sub", "xor", "cmp">>[j] IN
    <<B(n, 8 * i, <<Eb, Gb>>), B(n, 8 * i + 1, <<Ev, Gv>>), B(n, 8 * i + 2, <<Gb, Eb>>), B(n, 8 * i + 3, <<Gv, Ev>>),
      B(n, 8 * i + 4, <<Ab, Ib>>), B(n, 8 * i + 5, <<Av, Iz>>),
      BX(n, 128, i, <<Eb, Ib>>), BX(n, 129, i, <<Ev, Iz>>), BX(n, 131, i, <<Ev, Is>>)>>])
Shifts == Cat([j \in 1..8 |->
    IF j = 7 THEN <<>> ELSE
    LET i == j - 1  n == <<"rol", "ror", "rcl", "rcr", "shl", "shr", "", "sar">>[j] IN
    <<BX(n, 192, i, <<Eb, Ib>>), BX(n, 193, i, <<Ev, Ib>>), BX(n, 208, i, <<Eb, One>>), BX(n, 209, i, <<Ev, One>>),
      BX(n, 210, i, <<Eb, Fix("cl")>>), BX(n, 211, i, <<Ev, Fix("cl")>>)>>])
RegOps == Cat([r \in 1..8 |->
    <<Fl(B("inc", 63 + r, <<Zv>>), {"i64"}), Fl(B("dec", 71 + r, <<Zv>>), {"i64"}),
      Fl(B("push", 79 + r, <<Zv>>), {"d64"}), Fl(B("pop", 87 + r, <<Zv>>), {"d64"}),
      B("mov", 175 + r, <<Zb, Ib>>), B("mov", 183 + r, <<Zv, Iv>>), T("bswap", 199 + r, <<Zy>>)>>
    \o (IF r = 1 THEN <<Fl(B("nop", 144, <<>>), {"nop"}), Fl(B("xchg", 144, <<Zv, Av>>), {"b8"}), Row("pause", "f3", 0, 144, -1, <<>>, {})>> ELSE <<B("xchg", 143 + r, <<Zv, Av>>)>>)])
CcOps == Cat([j \in 1..16 |->
    <<T("cmov" \o Cc[j], 63 + j, <<Gv, Ev>>), T("set" \o Cc[j], 143 + j, <<Eb>>)>>])
I64(s) == [k \in 1..Len(s) |-> Fl(s[k], {"i64"})]
Base ==
  I64(<<B("push", 6, <<Fix("es")>>), B("pop", 7, <<Fix("es")>>), B("push", 14, <<Fix("cs")>>), B("push", 22, <<Fix("ss")>>),
    B("pop", 23, <<Fix("ss")>>), B("push", 30, <<Fix("ds")>>), B("pop", 31, <<Fix("ds")>>),
    B("daa", 39, <<>>), B("das", 47, <<>>), B("aaa", 55, <<>>), B("aas", 63, <<>>),
    Sized("pusha", "pushad", "", 96), Sized("popa", "popad", "", 97), B("bound", 98, <<Gv, <<"MV", "2v">>>>), B("arpl", 99, <<Ew, Gw>>),
    B("les", 196, <<Gv, Mp>>), B("lds", 197, <<Gv, Mp>>), B("into", 206, <<>>), B("aam", 212, <<Ib>>), B("aad", 213, <<Ib>>)>>) \o
  <<Fl(B("movsxd", 99, <<Gv, Ed>>), {"o64"}),
    Fl(B("push", 104, <<Iz>>), {"d64"}), Fl(B("push", 106, <<Is>>), {"d64"}),
    B("imul", 105, <<Gv, Ev, Iz>>), B("imul", 107, <<Gv, Ev, Is>>),
    B("insb", 108, <<>>), Sized("insw", "insd", "insd", 109), B("outsb", 110, <<>>), Sized("outsw", "outsd", "outsd", 111),
    B("test", 132, <<Eb, Gb>>), B("test", 133, <<Ev, Gv>>), B("xchg", 134, <<Eb, Gb>>), B("xchg", 135, <<Ev, Gv>>),
    B("mov", 136, <<Eb, Gb>>), B("mov", 137, <<Ev, Gv>>), B("mov", 138, <<Gb, Eb>>), B("mov", 139, <<Gv, Ev>>),
    B("mov", 140, <<Mem(2), Sw>>), B("mov", 140, <<Rv, Sw>>), B("lea", 141, <<Gv, Mem(0)>>), Fl(B("mov", 142, <<Sw, Ew>>), {}),
    Fl(B("mov", 142, <<Sw, Rv>>), {"alt"}),
    Fl(BX("pop", 143, 0, <<Ev>>), {"d64"}),
    Sized("cbw", "cwde", "cdqe", 152), Sized("cwd", "cdq", "cqo", 153), B("wait", 155, <<>>),
    Fl(Sized("pushf", "pushfd", "pushfq", 156), {"d64"}), Fl(Sized("popf", "popfd", "popfq", 157), {"d64"}),
    B("sahf", 158, <<>>), B("lahf", 159, <<>>),
    B("mov", 160, <<Ab, Ob>>), B("mov", 161, <<Av, Ov>>), B("mov", 162, <<Ob, Ab>>), B("mov", 163, <<Ov, Av>>),
    B("movsb", 164, <<>>), Sized("movsw", "movsd", "movsq", 165), B("cmpsb", 166, <<>>), Sized("cmpsw", "cmpsd", "cmpsq", 167),
    B("test", 168, <<Ab, Ib>>), B("test", 169, <<Av, Iz>>), B("stosb", 170, <<>>), Sized("stosw", "stosd", "stosq", 171),
    B("lodsb", 172, <<>>), Sized("lodsw", "lodsd", "lodsq", 173), B("scasb", 174, <<>>), Sized("scasw", "scasd", "scasq", 175),
    B("ret", 194, <<Iw>>), B("ret", 195, <<>>), BX("mov", 198, 0, <<Eb, Ib>>), BX("mov", 199, 0, <<Ev, Iz>>),
    B("enter", 200, <<Iw, Ib>>), B("leave", 201, <<>>), B("retf", 202, <<Iw>>), B("retf", 203, <<>>),
    B("int3", 204, <<>>), B("int", 205, <<Ib>>), Sized("iret", "iretd", "iretq", 207), B("xlatb", 215, <<>>),
    B("in", 228, <<Ab, Ib>>), Fl(B("in", 229, <<Av, Ib>>), {"noq"}), B("out", 230, <<Ib, Ab>>), Fl(B("out", 231, <<Ib, Av>>), {"noq"}),
    B("in", 236, <<Ab, Fix("dx")>>), Fl(B("in", 237, <<Av, Fix("dx")>>), {"noq"}), B("out", 238, <<Fix("dx"), Ab>>), Fl(B("out", 239, <<Fix("dx"), Av>>), {"noq"}),
    B("hlt", 244, <<>>), B("cmc", 245, <<>>),
    BX("test", 246, 0, <<Eb, Ib>>), BX("not", 246, 2, <<Eb>>), BX("neg", 246, 3, <<Eb>>), BX("mul", 246, 4, <<Eb>>),
    BX("imul", 246, 5, <<Eb>>), BX("div", 246, 6, <<Eb>>), BX("idiv", 246, 7, <<Eb>>),
    BX("test", 247, 0, <<Ev, Iz>>), BX("not", 247, 2, <<Ev>>), BX("neg", 247, 3, <<Ev>>), BX("mul", 247, 4, <<Ev>>),
    BX("imul", 247, 5, <<Ev>>), BX("div", 247, 6, <<Ev>>), BX("idiv", 247, 7, <<Ev>>),
    B("clc", 248, <<>>), B("stc", 249, <<>>), B("cli", 250, <<>>), B("sti", 251, <<>>), B("cld", 252, <<>>), B("std", 253, <<>>),
    BX("inc", 254, 0, <<Eb>>), BX("dec", 254, 1, <<Eb>>), BX("inc", 255, 0, <<Ev>>), BX("dec", 255, 1, <<Ev>>),
    Fl(BX("call", 255, 2, <<Ev>>), {"f64"}), Fl(BX("jmp", 255, 4, <<Ev>>), {"f64"}), Fl(BX("callf", 255, 3, << <<"MV", "p">> >>), {"noq"}), Fl(BX("jmpf", 255, 5, << <<"MV", "p">> >>), {"noq"}), Fl(BX("push", 255, 6, <<Ev>>), {"d64"}),
    TX("sldt", 0, 0, <<Ew>>), TX("str", 0, 1, <<Ew>>), TX("lldt", 0, 2, <<Ew>>), TX("ltr", 0, 3, <<Ew>>), TX("verr", 0, 4, <<Ew>>), TX("verw", 0, 5, <<Ew>>),
    TX("smsw", 1, 4, <<Ew>>), TX("lmsw", 1, 6, <<Ew>>), TX("invlpg", 1, 7, <<Mem(0)>>),
    TX("sgdt", 1, 0, <<Mem(0)>>), TX("sidt", 1, 1, <<Mem(0)>>), TX("lgdt", 1, 2, <<Mem(0)>>), TX("lidt", 1, 3, <<Mem(0)>>),
    Fl(T("lar", 2, <<Gv, Ev>>), {"noq"}), Fl(T("lsl", 3, <<Gv, Ev>>), {"noq"}),
    Fl(T("syscall", 5, <<>>), {"o64"}), T("clts", 6, <<>>), T("invd", 8, <<>>), T("wbinvd", 9, <<>>), T("ud2", 11, <<>>),
    Fl(T("mov", 32, <<Ry, Cy>>), {"f64"}), Fl(T("mov", 33, <<Ry, Dy>>), {"f64"}), Fl(T("mov", 34, <<Cy, Ry>>), {"f64"}), Fl(T("mov", 35, <<Dy, Ry>>), {"f64"}),
    T("wrmsr", 48, <<>>), T("rdtsc", 49, <<>>), T("rdmsr", 50, <<>>), T("rdpmc", 51, <<>>), T("sysenter", 52, <<>>), T("sysexit", 53, <<>>),
    T("push", 160, <<Fix("fs")>>), T("pop", 161, <<Fix("fs")>>), T("push", 168, <<Fix("gs")>>), T("pop", 169, <<Fix("gs")>>),
    T("cpuid", 162, <<>>), T("bt", 163, <<Ev, Gv>>), T("shld", 164, <<Ev, Gv, Ib>>), T("shld", 165, <<Ev, Gv, Fix("cl")>>),
    T("bts", 171, <<Ev, Gv>>), T("shrd", 172, <<Ev, Gv, Ib>>), T("shrd", 173, <<Ev, Gv, Fix("cl")>>), T("imul", 175, <<Gv, Ev>>),
    T("cmpxchg", 176, <<Eb, Gb>>), T("cmpxchg", 177, <<Ev, Gv>>), T("lss", 178, <<Gv, Mp>>), T("btr", 179, <<Ev, Gv>>),
    T("lfs", 180, <<Gv, Mp>>), T("lgs", 181, <<Gv, Mp>>), T("movzx", 182, <<Gv, Eb>>), Fl(T("movzx", 183, <<Gv, Ew>>), {"ext"}),
    Row("popcnt", "f3", 1, 184, -1, <<Gv, Ev>>, {}),
    TX("bt", 186, 4, <<Ev, Ib>>), TX("bts", 186, 5, <<Ev, Ib>>), TX("btr", 186, 6, <<Ev, Ib>>), TX("btc", 186, 7, <<Ev, Ib>>),
    T("btc", 187, <<Ev, Gv>>), T("bsf", 188, <<Gv, Ev>>), T("bsr", 189, <<Gv, Ev>>), T("movsx", 190, <<Gv, Eb>>), Fl(T("movsx", 191, <<Gv, Ew>>), {"ext"}),
    Row("tzcnt", "f3", 1, 188, -1, <<Gv, Ev>>, {}), Row("lzcnt", "f3", 1, 189, -1, <<Gv, Ev>>, {}),
    T("xadd", 192, <<Eb, Gb>>), T("xadd", 193, <<Ev, Gv>>), TX("cmpxchg8b", 199, 1, <<Mem(8)>>), T("movnti", 195, <<My, Gy>>),
    Row("movbe", "", 2, 240, -1, <<Gv, Mv>>, {}), Row("movbe", "", 2, 241, -1, <<Mv, Gv>>, {}),
    Row("crc32", "f2", 2, 240, -1, <<Gy, Eb>>, {}), Row("crc32", "f2", 2, 241, -1, <<Gy, Ev>>, {"crc"}),
    TX("fxsave", 174, 0, <<Mem(0)>>), TX("fxrstor", 174, 1, <<Mem(0)>>), TX("ldmxcsr", 174, 2, <<Mem(4)>>), TX("stmxcsr", 174, 3, <<Mem(4)>>),
    TX("clflush", 174, 7, <<Mem(1)>>),
    TX("prefetchnta", 24, 0, <<Mem(0)>>), TX("prefetcht0", 24, 1, <<Mem(0)>>), TX("prefetcht1", 24, 2, <<Mem(0)>>), TX("prefetcht2", 24, 3, <<Mem(0)>>)>>

(* x87: mrm rows have a fixed ModRM byte *)
Mrm(op, opc, m) == Row(op, "", 0, opc, m, <<>>, {"mrm"})
FA == <<"fadd", "fmul", "fcom", "fcomp", "fsub", "fsubr", "fdiv", "fdivr">>
FI == <<"fiadd", "fimul", "ficom", "ficomp", "fisub", "fisubr", "fidiv", "fidivr">>
X87 == Cat([j \in 1..8 |-> <<BX(FA[j], 216, j - 1, <<Mem(4)>>), BX(FA[j], 220, j - 1, <<Mem(8)>>), BX(FI[j], 218, j - 1, <<Mem(4)>>), BX(FI[j], 222, j - 1, <<Mem(2)>>)>>
          \o (IF j \in {3, 4} THEN <<BX(FA[j], 216, j - 1, <<Ti>>)>> ELSE
              LET r == <<"fadd", "fmul", "", "", "fsubr", "fsub", "fdivr", "fdiv">>[j] IN
              <<BX(FA[j], 216, j - 1, <<T0, Ti>>), BX(r, 220, j - 1, <<Ti, T0>>), BX(r \o "p", 222, j - 1, <<Ti, T0>>)>>)]) \o
  <<BX("fld", 217, 0, <<Mem(4)>>), BX("fst", 217, 2, <<Mem(4)>>), BX("fstp", 217, 3, <<Mem(4)>>), BX("fldenv", 217, 4, <<Mem(0)>>),
    BX("fldcw", 217, 5, <<Mem(2)>>), BX("fnstenv", 217, 6, <<Mem(0)>>), BX("fnstcw", 217, 7, <<Mem(2)>>),
    BX("fild", 219, 0, <<Mem(4)>>), BX("fisttp", 219, 1, <<Mem(4)>>), BX("fist", 219, 2, <<Mem(4)>>), BX("fistp", 219, 3, <<Mem(4)>>),
    BX("fld", 219, 5, <<Mem(10)>>), BX("fstp", 219, 7, <<Mem(10)>>),
    BX("fld", 221, 0, <<Mem(8)>>), BX("fisttp", 221, 1, <<Mem(8)>>), BX("fst", 221, 2, <<Mem(8)>>), BX("fstp", 221, 3, <<Mem(8)>>),
    BX("frstor", 221, 4, <<Mem(0)>>), BX("fnsave", 221, 6, <<Mem(0)>>), BX("fnstsw", 221, 7, <<Mem(2)>>),
    BX("fild", 223, 0, <<Mem(2)>>), BX("fisttp", 223, 1, <<Mem(2)>>), BX("fist", 223, 2, <<Mem(2)>>), BX("fistp", 223, 3, <<Mem(2)>>),
    BX("fbld", 223, 4, <<Mem(10)>>), BX("fild", 223, 5, <<Mem(8)>>), BX("fbstp", 223, 6, <<Mem(10)>>), BX("fistp", 223, 7, <<Mem(8)>>),
    BX("fld", 217, 0, <<Ti>>), BX("fxch", 217, 1, <<Ti>>), BX("ffree", 221, 0, <<Ti>>), BX("fst", 221, 2, <<Ti>>), BX("fstp", 221, 3, <<Ti>>),
    BX("fucom", 221, 4, <<Ti>>), BX("fucomp", 221, 5, <<Ti>>),
    BX("fcmovb", 218, 0, <<T0, Ti>>), BX("fcmove", 218, 1, <<T0, Ti>>), BX("fcmovbe", 218, 2, <<T0, Ti>>), BX("fcmovu", 218, 3, <<T0, Ti>>),
    BX("fcmovnb", 219, 0, <<T0, Ti>>), BX("fcmovne", 219, 1, <<T0, Ti>>), BX("fcmovnbe", 219, 2, <<T0, Ti>>), BX("fcmovnu", 219, 3, <<T0, Ti>>),
    BX("fucomi", 219, 5, <<T0, Ti>>), BX("fcomi", 219, 6, <<T0, Ti>>), BX("fucomip", 223, 5, <<T0, Ti>>), BX("fcomip", 223, 6, <<T0, Ti>>),
    Mrm("fnop", 217, 208), Mrm("fchs", 217, 224), Mrm("fabs", 217, 225), Mrm("ftst", 217, 228), Mrm("fxam", 217, 229), Mrm("fld1", 217, 232),
    Mrm("fldl2t", 217, 233), Mrm("fldl2e", 217, 234), Mrm("fldpi", 217, 235), Mrm("fldlg2", 217, 236), Mrm("fldln2", 217, 237), Mrm("fldz", 217, 238),
    Mrm("f2xm1", 217, 240), Mrm("fyl2x", 217, 241), Mrm("fptan", 217, 242), Mrm("fpatan", 217, 243), Mrm("fxtract", 217, 244), Mrm("fprem1", 217, 245),
    Mrm("fdecstp", 217, 246), Mrm("fincstp", 217, 247), Mrm("fprem", 217, 248), Mrm("fyl2xp1", 217, 249), Mrm("fsqrt", 217, 250), Mrm("fsincos", 217, 251),
    Mrm("frndint", 217, 252), Mrm("fscale", 217, 253), Mrm("fsin", 217, 254), Mrm("fcos", 217, 255), Mrm("fucompp", 218, 233), Mrm("fcompp", 222, 217),
    Mrm("fnclex", 219, 226), Mrm("fninit", 219, 227), Fl(Row("fnstsw", "", 0, 223, 224, <<Fix("ax")>>, {}), {"mrm"}),
    TX("lfence", 174, 5, <<>>), TX("mfence", 174, 6, <<>>), TX("sfence", 174, 7, <<>>), T("emms", 119, <<>>)>>

(* ---- vector operations: SSE rows, with the AVX row they give.
   kind 3: v-form has an additional first source; 2: it has not; 0: no v-form;
   wide: the v-form also takes 256 bits *)
Dup(r, kind, wide) ==
    LET n == Len(r.args)
        wid(a) == IF wide /\ a[1] \in {"V", "H", "U"} THEN <<a[1], "x">>
                  ELSE IF wide /\ a = W(16) THEN Wx ELSE a
        va == [k \in 1..n |-> wid(r.args[k])]
        h == IF va[1][1] \in {"V"} THEN <<"H", va[1][2]>> ELSE Ho
        args == IF kind = 3 THEN <<va[1], h>> \o SubSeq(va, 2, n) ELSE va
    IN IF kind = 0 THEN <<r>> ELSE <<r, [r EXCEPT !.op = "v" \o @, !.args = args, !.fl = @ \union {"vex"} \union (IF wide THEN {} ELSE {"l0"})]>>
V1(op, pfx, opc, args, kind, wide) == Dup(Row(op, pfx, 1, opc, -1, args, {}), kind, wide)
V2(op, pfx, opc, args, kind, wide) == Dup(Row(op, pfx, 2, opc, -1, args, {}), kind, wide)
V3(op, pfx, opc, args, kind, wide) == Dup(Row(op, pfx, 3, opc, -1, args, {}), kind, wide)
Arith(n, opc) == V1(n \o "ps", "np", opc, <<Vo, W(16)>>, 3, TRUE) \o V1(n \o "pd", "66", opc, <<Vo, W(16)>>, 3, TRUE)
    \o V1(n \o "ss", "f3", opc, <<Vo, W(4)>>, 3, FALSE) \o V1(n \o "sd", "f2", opc, <<Vo, W(8)>>, 3, FALSE)
Logic(n, opc) == V1(n \o "ps", "np", opc, <<Vo, W(16)>>, 3, TRUE) \o V1(n \o "pd", "66", opc, <<Vo, W(16)>>, 3, TRUE)
(* integer operation with an MMX form *)
PI(n, opc) == <<Row(n, "np", 1, opc, -1, <<Pq, Q(8)>>, {})>> \o V1(n, "66", opc, <<Vo, W(16)>>, 3, TRUE)
PX(n, opc) == V1(n, "66", opc, <<Vo, W(16)>>, 3, TRUE)
PI2(n, opc) == <<Row(n, "np", 2, opc, -1, <<Pq, Q(8)>>, {})>> \o V2(n, "66", opc, <<Vo, W(16)>>, 3, TRUE)
PA2(n, opc) == <<Row(n, "np", 2, opc, -1, <<Pq, Q(8)>>, {})>> \o V2(n, "66", opc, <<Vo, W(16)>>, 2, TRUE)
PX2(n, opc) == V2(n, "66", opc, <<Vo, W(16)>>, 3, TRUE)
Sh(n, opc, ext) == <<Row(n, "np", 1, opc, ext, <<Nq, Ib>>, {}), Row(n, "66", 1, opc, ext, <<Uo, Ib>>, {}),
                     Row("v" \o n, "66", 1, opc, ext, <<Hx, Ux, Ib>>, {"vex"})>>
ShX(n, opc, ext) == <<Row(n, "66", 1, opc, ext, <<Uo, Ib>>, {}), Row("v" \o n, "66", 1, opc, ext, <<Hx, Ux, Ib>>, {"vex"})>>
(* shift counts come from an xmm register or 16 bytes, also for ymm *)
PSh(n, opc) == <<Row(n, "np", 1, opc, -1, <<Pq, Q(8)>>, {}), Row(n, "66", 1, opc, -1, <<Vo, W(16)>>, {}),
                 Row("v" \o n, "66", 1, opc, -1, <<Vx, Hx, W(16)>>, {"vex"})>>
Mov2(op, pfx, o1, o2, w, wide) == V1(op, pfx, o1, <<Vo, W(w)>>, 2, wide) \o V1(op, pfx, o2, <<W(w), Vo>>, 2, wide)
PMov(n, opc, sz) == V2(n, "66", opc, <<Vo, W(sz)>>, 2, FALSE)
Sse == Cat(<<
  Arith("sqrt", 81), Arith("add", 88), Arith("mul", 89), Arith("sub", 92), Arith("min", 93), Arith("div", 94), Arith("max", 95),
  Logic("and", 84), Logic("andn", 85), Logic("or", 86), Logic("xor", 87), Logic("unpckl", 20), Logic("unpckh", 21)>>)
SqrtFix(r) == IF r.op \in {"vsqrtps", "vsqrtpd"} THEN [r EXCEPT !.args = <<Vx, Wx>>] ELSE r
Sse1 == [k \in 1..Len(Sse) |-> SqrtFix(Sse[k])]
Sse2 == Cat(<<
  V1("rsqrtps", "np", 82, <<Vo, W(16)>>, 2, TRUE), V1("rsqrtss", "f3", 82, <<Vo, W(4)>>, 3, FALSE),
  V1("rcpps", "np", 83, <<Vo, W(16)>>, 2, TRUE), V1("rcpss", "f3", 83, <<Vo, W(4)>>, 3, FALSE),
  Mov2("movaps", "np", 40, 41, 16, TRUE), Mov2("movapd", "66", 40, 41, 16, TRUE), Mov2("movups", "np", 16, 17, 16, TRUE), Mov2("movupd", "66", 16, 17, 16, TRUE),
  Mov2("movdqa", "66", 111, 127, 16, TRUE), Mov2("movdqu", "f3", 111, 127, 16, TRUE),
  V1("movss", "f3", 16, <<Vo, Mem(4)>>, 2, FALSE), V1("movss", "f3", 17, <<Mem(4), Vo>>, 2, FALSE), V1("movss", "f3", 16, <<Vo, Uo>>, 3, FALSE),
  V1("movss", "f3", 17, <<Uo, Vo>>, 0, FALSE),
  V1("movsd", "f2", 16, <<Vo, Mem(8)>>, 2, FALSE), V1("movsd", "f2", 17, <<Mem(8), Vo>>, 2, FALSE), V1("movsd", "f2", 16, <<Vo, Uo>>, 3, FALSE),
  V1("movsd", "f2", 17, <<Uo, Vo>>, 0, FALSE),
  V1("movlps", "np", 18, <<Vo, Mem(8)>>, 3, FALSE), V1("movlps", "np", 19, <<Mem(8), Vo>>, 2, FALSE), V1("movhlps", "np", 18, <<Vo, Uo>>, 3, FALSE),
  V1("movlpd", "66", 18, <<Vo, Mem(8)>>, 3, FALSE), V1("movlpd", "66", 19, <<Mem(8), Vo>>, 2, FALSE),
  V1("movhps", "np", 22, <<Vo, Mem(8)>>, 3, FALSE), V1("movhps", "np", 23, <<Mem(8), Vo>>, 2, FALSE), V1("movlhps", "np", 22, <<Vo, Uo>>, 3, FALSE),
  V1("movhpd", "66", 22, <<Vo, Mem(8)>>, 3, FALSE), V1("movhpd", "66", 23, <<Mem(8), Vo>>, 2, FALSE),
  V1("movddup", "f2", 18, <<Vo, W(8)>>, 2, FALSE), V1("movsldup", "f3", 18, <<Vo, W(16)>>, 2, TRUE), V1("movshdup", "f3", 22, <<Vo, W(16)>>, 2, TRUE),
  V1("movntps", "np", 43, <<Mem(16), Vo>>, 2, FALSE), V1("movntdq", "66", 231, <<Mem(16), Vo>>, 2, FALSE), V1("movntpd", "66", 43, <<Mem(16), Vo>>, 2, FALSE),
  V1("ucomiss", "np", 46, <<Vo, W(4)>>, 2, FALSE), V1("ucomisd", "66", 46, <<Vo, W(8)>>, 2, FALSE),
  V1("comiss", "np", 47, <<Vo, W(4)>>, 2, FALSE), V1("comisd", "66", 47, <<Vo, W(8)>>, 2, FALSE),
  V1("shufps", "np", 198, <<Vo, W(16), Ib>>, 3, TRUE), V1("shufpd", "66", 198, <<Vo, W(16), Ib>>, 3, TRUE),
  V1("cmpps", "np", 194, <<Vo, W(16), Ib>>, 3, TRUE), V1("cmppd", "66", 194, <<Vo, W(16), Ib>>, 3, TRUE),
  V1("cmpss", "f3", 194, <<Vo, W(4), Ib>>, 3, FALSE), V1("cmpsd", "f2", 194, <<Vo, W(8), Ib>>, 3, FALSE),
  V1("cvtps2pd", "np", 90, <<Vo, W(8)>>, 2, FALSE), V1("cvtss2sd", "f3", 90, <<Vo, W(4)>>, 3, FALSE), V1("cvtsd2ss", "f2", 90, <<Vo, W(8)>>, 3, FALSE),
  V1("cvtdq2ps", "np", 91, <<Vo, W(16)>>, 2, TRUE), V1("cvtps2dq", "66", 91, <<Vo, W(16)>>, 2, TRUE), V1("cvttps2dq", "f3", 91, <<Vo, W(16)>>, 2, TRUE),
  V1("cvtdq2pd", "f3", 230, <<Vo, W(8)>>, 2, FALSE), V1("cvtpd2ps", "66", 90, <<Vo, W(16)>>, 0, FALSE), V1("cvtpd2dq", "f2", 230, <<Vo, W(16)>>, 0, FALSE), V1("cvttpd2dq", "66", 230, <<Vo, W(16)>>, 0, FALSE),
  V1("cvtsi2ss", "f3", 42, <<Vo, Ey>>, 3, FALSE), V1("cvtsi2sd", "f2", 42, <<Vo, Ey>>, 3, FALSE),
  V1("cvttss2si", "f3", 44, <<Gy, W(4)>>, 2, FALSE), V1("cvttsd2si", "f2", 44, <<Gy, W(8)>>, 2, FALSE), V1("cvtss2si", "f3", 45, <<Gy, W(4)>>, 2, FALSE), V1("cvtsd2si", "f2", 45, <<Gy, W(8)>>, 2, FALSE),
  <<Row("cvtpi2ps", "np", 1, 42, -1, <<Vo, Q(8)>>, {}), Row("cvtps2pi", "np", 1, 45, -1, <<Pq, W(8)>>, {}), Row("cvttps2pi", "np", 1, 44, -1, <<Pq, W(8)>>, {})>>,
  V1("movmskps", "np", 80, <<Gd, Uo>>, 0, FALSE), V1("movmskpd", "66", 80, <<Gd, Uo>>, 0, FALSE),
  <<Row("movd", "np", 1, 110, -1, <<Pq, Ed>>, {}), Row("movd", "np", 1, 126, -1, <<Ed, Pq>>, {}),
    Row("movq", "np", 1, 111, -1, <<Pq, Q(8)>>, {}), Row("movq", "np", 1, 127, -1, <<Q(8), Pq>>, {}),
    Row("movd", "66", 1, 110, -1, <<Vo, Ed>>, {"w0"}), Row("movd", "66", 1, 126, -1, <<Ed, Vo>>, {"w0"}),
    Row("movq", "66", 1, 110, -1, <<Vo, <<"E", "q">>>>, {"w1"}), Row("movq", "66", 1, 126, -1, <<<<"E", "q">>, Vo>>, {"w1"}),
    Row("vmovd", "66", 1, 110, -1, <<Vo, Ed>>, {"w0", "vex", "l0"}), Row("vmovd", "66", 1, 126, -1, <<Ed, Vo>>, {"w0", "vex", "l0"}),
    Row("vmovq", "66", 1, 110, -1, <<Vo, <<"E", "q">>>>, {"w1", "vex", "l0"}), Row("vmovq", "66", 1, 126, -1, <<<<"E", "q">>, Vo>>, {"w1", "vex", "l0"}),
    Row("movdq2q", "f2", 1, 214, -1, <<Pq, Uo>>, {}), Row("movq2dq", "f3", 1, 214, -1, <<Vo, Nq>>, {}),
    Row("pextrw", "np", 1, 197, -1, <<Gd, Nq, Ib>>, {}), Row("pextrw", "66", 1, 197, -1, <<Gd, Uo, Ib>>, {}), Row("vpextrw", "66", 1, 197, -1, <<Gd, Uo, Ib>>, {"vex", "l0"}),
    Row("pmovmskb", "np", 1, 215, -1, <<Gd, Nq>>, {}), Row("pmovmskb", "66", 1, 215, -1, <<Gd, Uo>>, {}),
    Row("pshufw", "np", 1, 112, -1, <<Pq, Q(8), Ib>>, {}), Row("maskmovq", "np", 1, 247, -1, <<Pq, Nq>>, {}), Row("movntq", "np", 1, 231, -1, <<Mem(8), Pq>>, {})>>,
  V1("movq", "f3", 126, <<Vo, W(8)>>, 2, FALSE), V1("movq", "66", 214, <<W(8), Vo>>, 2, FALSE),
  V1("maskmovdqu", "66", 247, <<Vo, Uo>>, 2, FALSE), V1("lddqu", "f2", 240, <<Vo, Mem(16)>>, 2, FALSE),
  V1("pshufd", "66", 112, <<Vo, W(16), Ib>>, 2, TRUE), V1("pshufhw", "f3", 112, <<Vo, W(16), Ib>>, 2, TRUE), V1("pshuflw", "f2", 112, <<Vo, W(16), Ib>>, 2, TRUE),
  V1("haddps", "f2", 124, <<Vo, W(16)>>, 3, TRUE), V1("haddpd", "66", 124, <<Vo, W(16)>>, 3, TRUE), V1("hsubps", "f2", 125, <<Vo, W(16)>>, 3, TRUE), V1("hsubpd", "66", 125, <<Vo, W(16)>>, 3, TRUE),
  V1("addsubps", "f2", 208, <<Vo, W(16)>>, 3, TRUE), V1("addsubpd", "66", 208, <<Vo, W(16)>>, 3, TRUE)>>)
PNames == << <<"punpcklbw", 96>>, <<"punpcklwd", 97>>, <<"punpckldq", 98>>, <<"packsswb", 99>>, <<"pcmpgtb", 100>>, <<"pcmpgtw", 101>>, <<"pcmpgtd", 102>>, <<"packuswb", 103>>,
  <<"punpckhbw", 104>>, <<"punpckhwd", 105>>, <<"punpckhdq", 106>>, <<"packssdw", 107>>, <<"pcmpeqb", 116>>, <<"pcmpeqw", 117>>, <<"pcmpeqd", 118>>,
  <<"paddq", 212>>, <<"pmullw", 213>>, <<"psubusb", 216>>, <<"psubusw", 217>>, <<"pminub", 218>>, <<"pand", 219>>, <<"paddusb", 220>>, <<"paddusw", 221>>, <<"pmaxub", 222>>, <<"pandn", 223>>,
  <<"pavgb", 224>>, <<"pavgw", 227>>, <<"pmulhuw", 228>>, <<"pmulhw", 229>>, <<"psubsb", 232>>, <<"psubsw", 233>>, <<"pminsw", 234>>, <<"por", 235>>, <<"paddsb", 236>>, <<"paddsw", 237>>, <<"pmaxsw", 238>>, <<"pxor", 239>>,
  <<"pmuludq", 244>>, <<"pmaddwd", 245>>, <<"psadbw", 246>>, <<"psubb", 248>>, <<"psubw", 249>>, <<"psubd", 250>>, <<"psubq", 251>>, <<"paddb", 252>>, <<"paddw", 253>>, <<"paddd", 254>> >>
PShNames == << <<"psrlw", 209>>, <<"psrld", 210>>, <<"psrlq", 211>>, <<"psraw", 225>>, <<"psrad", 226>>, <<"psllw", 241>>, <<"pslld", 242>>, <<"psllq", 243>> >>
P2Names == << <<"pshufb", 0>>, <<"phaddw", 1>>, <<"phaddd", 2>>, <<"phaddsw", 3>>, <<"pmaddubsw", 4>>, <<"phsubw", 5>>, <<"phsubd", 6>>, <<"phsubsw", 7>>, <<"psignb", 8>>, <<"psignw", 9>>, <<"psignd", 10>>, <<"pmulhrsw", 11>> >>
P4Names == << <<"pmuldq", 40>>, <<"pcmpeqq", 41>>, <<"packusdw", 43>>, <<"pcmpgtq", 55>>, <<"pminsb", 56>>, <<"pminsd", 57>>, <<"pminuw", 58>>, <<"pminud", 59>>, <<"pmaxsb", 60>>, <<"pmaxsd", 61>>, <<"pmaxuw", 62>>, <<"pmaxud", 63>>, <<"pmulld", 64>> >>
Ints == Cat([k \in 1..Len(PNames) |-> PI(PNames[k][1], PNames[k][2])]) \o Cat([k \in 1..Len(PShNames) |-> PSh(PShNames[k][1], PShNames[k][2])])
  \o Cat([k \in 1..Len(P2Names) |-> PI2(P2Names[k][1], P2Names[k][2])]) \o Cat([k \in 1..Len(P4Names) |-> PX2(P4Names[k][1], P4Names[k][2])])
  \o PX("punpcklqdq", 108) \o PX("punpckhqdq", 109) \o PA2("pabsb", 28) \o PA2("pabsw", 29) \o PA2("pabsd", 30)
  \o Sh("psrlw", 113, 2) \o Sh("psraw", 113, 4) \o Sh("psllw", 113, 6) \o Sh("psrld", 114, 2) \o Sh("psrad", 114, 4) \o Sh("pslld", 114, 6)
  \o Sh("psrlq", 115, 2) \o Sh("psllq", 115, 6) \o ShX("psrldq", 115, 3) \o ShX("pslldq", 115, 7)
  \o PMov("pmovsxbw", 32, 8) \o PMov("pmovsxbd", 33, 4) \o PMov("pmovsxbq", 34, 2) \o PMov("pmovsxwd", 35, 8) \o PMov("pmovsxwq", 36, 4) \o PMov("pmovsxdq", 37, 8)
  \o PMov("pmovzxbw", 48, 8) \o PMov("pmovzxbd", 49, 4) \o PMov("pmovzxbq", 50, 2) \o PMov("pmovzxwd", 51, 8) \o PMov("pmovzxwq", 52, 4) \o PMov("pmovzxdq", 53, 8)
  \o V2("phminposuw", "66", 65, <<Vo, W(16)>>, 2, FALSE) \o V2("ptest", "66", 23, <<Vo, W(16)>>, 2, TRUE) \o V2("movntdqa", "66", 42, <<Vo, Mem(16)>>, 2, FALSE)
  \o V3("roundps", "66", 8, <<Vo, W(16), Ib>>, 2, TRUE) \o V3("roundpd", "66", 9, <<Vo, W(16), Ib>>, 2, TRUE) \o V3("roundss", "66", 10, <<Vo, W(4), Ib>>, 3, FALSE) \o V3("roundsd", "66", 11, <<Vo, W(8), Ib>>, 3, FALSE)
  \o V3("blendps", "66", 12, <<Vo, W(16), Ib>>, 3, TRUE) \o V3("blendpd", "66", 13, <<Vo, W(16), Ib>>, 3, TRUE) \o V3("pblendw", "66", 14, <<Vo, W(16), Ib>>, 3, TRUE)
  \o <<Row("palignr", "np", 3, 15, -1, <<Pq, Q(8), Ib>>, {})>> \o V3("palignr", "66", 15, <<Vo, W(16), Ib>>, 3, TRUE)
  \o V3("dpps", "66", 64, <<Vo, W(16), Ib>>, 3, TRUE) \o V3("dppd", "66", 65, <<Vo, W(16), Ib>>, 3, FALSE) \o V3("mpsadbw", "66", 66, <<Vo, W(16), Ib>>, 3, FALSE)
  \o V3("insertps", "66", 33, <<Vo, W(4), Ib>>, 3, FALSE) \o V3("extractps", "66", 23, <<Ed, Vo, Ib>>, 2, FALSE)
  \o V3("pcmpestrm", "66", 96, <<Vo, W(16), Ib>>, 2, FALSE) \o V3("pcmpestri", "66", 97, <<Vo, W(16), Ib>>, 2, FALSE) \o V3("pcmpistrm", "66", 98, <<Vo, W(16), Ib>>, 2, FALSE) \o V3("pcmpistri", "66", 99, <<Vo, W(16), Ib>>, 2, FALSE)
  \o V2("aesimc", "66", 219, <<Vo, W(16)>>, 2, FALSE) \o V2("aesenc", "66", 220, <<Vo, W(16)>>, 3, FALSE) \o V2("aesenclast", "66", 221, <<Vo, W(16)>>, 3, FALSE) \o V2("aesdec", "66", 222, <<Vo, W(16)>>, 3, FALSE) \o V2("aesdeclast", "66", 223, <<Vo, W(16)>>, 3, FALSE)
  \o V3("aeskeygenassist", "66", 223, <<Vo, W(16), Ib>>, 2, FALSE) \o V3("pclmulqdq", "66", 68, <<Vo, W(16), Ib>>, 3, FALSE)
  \o <<Row("pinsrw", "66", 1, 196, -1, <<Vo, <<"R", "d">>, Ib>>, {}), Row("pinsrw", "66", 1, 196, -1, <<Vo, Mem(2), Ib>>, {}),
       Row("pinsrw", "np", 1, 196, -1, <<Pq, <<"R", "d">>, Ib>>, {}), Row("pinsrw", "np", 1, 196, -1, <<Pq, Mem(2), Ib>>, {})>>
  \o <<Row("pinsrd", "66", 3, 34, -1, <<Vo, Ed, Ib>>, {"w0"}), Row("pextrd", "66", 3, 22, -1, <<Ed, Vo, Ib>>, {"w0"}),
       Row("pinsrq", "66", 3, 34, -1, <<Vo, <<"E", "q">>, Ib>>, {"w1"}), Row("pextrq", "66", 3, 22, -1, <<<<"E", "q">>, Vo, Ib>>, {"w1"}),
       Row("blendvps", "66", 2, 20, -1, <<Vo, W(16), Fix("xmm0")>>, {}), Row("blendvpd", "66", 2, 21, -1, <<Vo, W(16), Fix("xmm0")>>, {}), Row("pblendvb", "66", 2, 16, -1, <<Vo, W(16), Fix("xmm0")>>, {})>>
(* operations that exist with VEX only *)
VX(op, map, opc, args, fl) == Row(op, "66", map, opc, -1, args, {"vex"} \union fl)
Fma(n, opc) == Cat([k \in 1..3 |-> LET f == n \o <<"132", "213", "231">>[k]  o == opc + 16 * (k - 1) IN
    <<VX(f \o "ps", 2, o, <<Vx, Hx, Wx>>, {"w0"}), VX(f \o "pd", 2, o, <<Vx, Hx, Wx>>, {"w1"})>>])
FmaS(n, opc) == Cat([k \in 1..3 |-> LET f == n \o <<"132", "213", "231">>[k]  o == opc + 16 * (k - 1) IN
    <<VX(f \o "ss", 2, o, <<Vo, Ho, W(4)>>, {"w0"}), VX(f \o "sd", 2, o, <<Vo, Ho, W(8)>>, {"w1"})>>])
(* the shift count of shlx.. and the first source of andn.. are in VEX.vvvv *)
Bmi == <<Row("andn", "np", 2, 242, -1, <<Gy, <<"H", "y">>, Ey>>, {"vex", "l0"}), Row("bextr", "np", 2, 247, -1, <<Gy, Ey, <<"H", "y">>>>, {"vex", "l0"}),
    Row("blsr", "np", 2, 243, 1, <<<<"H", "y">>, Ey>>, {"vex", "l0"}), Row("blsmsk", "np", 2, 243, 2, <<<<"H", "y">>, Ey>>, {"vex", "l0"}), Row("blsi", "np", 2, 243, 3, <<<<"H", "y">>, Ey>>, {"vex", "l0"}),
    Row("bzhi", "np", 2, 245, -1, <<Gy, Ey, <<"H", "y">>>>, {"vex", "l0"}), Row("pdep", "f2", 2, 245, -1, <<Gy, <<"H", "y">>, Ey>>, {"vex", "l0"}), Row("pext", "f3", 2, 245, -1, <<Gy, <<"H", "y">>, Ey>>, {"vex", "l0"}),
    Row("mulx", "f2", 2, 246, -1, <<Gy, <<"H", "y">>, Ey>>, {"vex", "l0"}), Row("rorx", "f2", 3, 240, -1, <<Gy, Ey, Ib>>, {"vex", "l0"}),
    Row("shlx", "66", 2, 247, -1, <<Gy, Ey, <<"H", "y">>>>, {"vex", "l0"}), Row("sarx", "f3", 2, 247, -1, <<Gy, Ey, <<"H", "y">>>>, {"vex", "l0"}), Row("shrx", "f2", 2, 247, -1, <<Gy, Ey, <<"H", "y">>>>, {"vex", "l0"}),
    Row("adcx", "66", 2, 246, -1, <<Gy, Ey>>, {}), Row("adox", "f3", 2, 246, -1, <<Gy, Ey>>, {})>>
Vex == Fma("vfmadd", 152) \o Fma("vfmsub", 154) \o Fma("vfnmadd", 156) \o Fma("vfnmsub", 158) \o Fma("vfmaddsub", 150) \o Fma("vfmsubadd", 151)
  \o FmaS("vfmadd", 153) \o FmaS("vfmsub", 155) \o FmaS("vfnmadd", 157) \o FmaS("vfnmsub", 159)
  \o <<VX("vbroadcastss", 2, 24, <<Vx, W(4)>>, {}), VX("vbroadcastsd", 2, 25, <<<<"V", "y">>, W(8)>>, {"l1"}), VX("vbroadcastf128", 2, 26, <<<<"V", "y">>, Mem(16)>>, {"l1"}),
       VX("vpermilps", 2, 12, <<Vx, Hx, Wx>>, {"w0"}), VX("vpermilpd", 2, 13, <<Vx, Hx, Wx>>, {"w0"}), VX("vpermilps", 3, 4, <<Vx, Wx, Ib>>, {"w0"}), VX("vpermilpd", 3, 5, <<Vx, Wx, Ib>>, {"w0"}),
       VX("vperm2f128", 3, 6, <<<<"V", "y">>, <<"H", "y2">>, <<"W", "y", 32>>, Ib>>, {"l1", "w0"}), VX("vperm2i128", 3, 70, <<<<"V", "y">>, <<"H", "y2">>, <<"W", "y", 32>>, Ib>>, {"l1", "w0"}),
       VX("vinsertf128", 3, 24, <<<<"V", "y">>, <<"H", "y2">>, W(16), Ib>>, {"l1", "w0"}), VX("vextractf128", 3, 25, <<W(16), <<"V", "y">>, Ib>>, {"l1", "w0"}),
       VX("vblendvps", 3, 74, <<Vx, Hx, Wx, Lx>>, {"w0"}), VX("vblendvpd", 3, 75, <<Vx, Hx, Wx, Lx>>, {"w0"}), VX("vpblendvb", 3, 76, <<Vx, Hx, Wx, Lx>>, {"w0"}),
       VX("vmaskmovps", 2, 44, <<Vx, Hx, <<"MV", "x">>>>, {"w0"}), VX("vmaskmovpd", 2, 45, <<Vx, Hx, <<"MV", "x">>>>, {"w0"}), VX("vmaskmovps", 2, 46, <<<<"MV", "x">>, Hx, Vx>>, {"w0"}), VX("vmaskmovpd", 2, 47, <<<<"MV", "x">>, Hx, Vx>>, {"w0"}),
       VX("vtestps", 2, 14, <<Vx, Wx>>, {"w0"}), VX("vtestpd", 2, 15, <<Vx, Wx>>, {"w0"}),
       VX("vpsllvd", 2, 71, <<Vx, Hx, Wx>>, {"w0"}), VX("vpsllvq", 2, 71, <<Vx, Hx, Wx>>, {"w1"}), VX("vpsravd", 2, 70, <<Vx, Hx, Wx>>, {"w0"}), VX("vpsrlvd", 2, 69, <<Vx, Hx, Wx>>, {"w0"}), VX("vpsrlvq", 2, 69, <<Vx, Hx, Wx>>, {"w1"}),
       VX("vpbroadcastb", 2, 120, <<Vx, W(1)>>, {"w0"}), VX("vpbroadcastw", 2, 121, <<Vx, W(2)>>, {"w0"}), VX("vpbroadcastd", 2, 88, <<Vx, W(4)>>, {"w0"}), VX("vpbroadcastq", 2, 89, <<Vx, W(8)>>, {"w0"}),
       VX("vpermd", 2, 54, <<<<"V", "y">>, <<"H", "y2">>, <<"W", "y", 32>>>>, {"l1", "w0"}), VX("vpermps", 2, 22, <<<<"V", "y">>, <<"H", "y2">>, <<"W", "y", 32>>>>, {"l1", "w0"}),
       VX("vpermq", 3, 0, <<<<"V", "y">>, <<"W", "y", 32>>, Ib>>, {"l1", "w1"}), VX("vpermpd", 3, 1, <<<<"V", "y">>, <<"W", "y", 32>>, Ib>>, {"l1", "w1"}), VX("vpblendd", 3, 2, <<Vx, Hx, Wx, Ib>>, {"w0"}),
       Row("vzeroupper", "np", 1, 119, -1, <<>>, {"vex", "l0"}), Row("vzeroall", "np", 1, 119, -1, <<>>, {"vex", "l1"})>>

RowList == TLCEval(Alu \o Shifts \o RegOps \o CcOps \o Base \o X87 \o Sse1 \o Sse2 \o Ints \o Vex \o Bmi)
Names(r) == IF "sized" \in r.fl THEN {r.op[1], r.op[2], r.op[3]} ELSE {r.op}
(* computed once: the rows, rows by opcode, rows by name *)
Tables ==
    LET rows == RowList
        ks == [k \in 1..Len(rows) |-> k]
        all == UNION {Names(rows[r]) : r \in 1..Len(rows)}
    IN [rows |-> rows,
        index |-> TLCEval(FoldLeft(LAMBDA f, k : [f EXCEPT ![rows[k].map * 256 + rows[k].opc] = @ \union {k}], [x \in 0..1023 |-> {}], ks)),
        names |-> TLCEval(FoldLeft(LAMBDA f, k : IF "sized" \in rows[k].fl THEN [n \in all |-> IF n \in Names(rows[k]) THEN f[n] \union {k} ELSE f[n]]
                                                 ELSE [f EXCEPT ![rows[k].op] = @ \union {k}], [n \in all |-> {}], ks))]
ASSUME TLCSet(77, Tables)
Rows == TLCGet(77).rows
NRow == Len(Rows)
RegField == {"G", "V", "P", "S", "C", "D"}
RmField == {"E", "R", "M", "MV", "Q", "N", "W", "U", "T"}
HasModrm(r) == r.ext >= 0 \/ \E k \in 1..Len(r.args) : r.args[k][1] \in RegField \union RmField

(* ---- decoding *)
RECURSIVE Pref(_, _, _, _)
Pref(b, p, mode, s) ==
    LET x == b[p] IN
    CASE x = 102 -> Pref(b, p + 1, mode, [s EXCEPT !.o = TRUE])
      [] x = 103 -> Pref(b, p + 1, mode, [s EXCEPT !.a = TRUE])
      [] x = 240 -> Pref(b, p + 1, mode, [s EXCEPT !.lock = TRUE])
      [] x = 242 -> Pref(b, p + 1, mode, [s EXCEPT !.rep = "f2"])
      [] x = 243 -> Pref(b, p + 1, mode, [s EXCEPT !.rep = "f3"])
      [] x \in {38, 46, 54, 62, 100, 101} ->
            Pref(b, p + 1, mode, [s EXCEPT !.seg = CASE x = 38 -> "es" [] x = 46 -> "cs" [] x = 54 -> "ss" [] x = 62 -> "ds" [] x = 100 -> "fs" [] OTHER -> "gs"])
      [] mode = 64 /\ x \in 64..79 ->
            [s EXCEPT !.p = p + 1, !.rex = TRUE, !.w = (x % 16) >= 8, !.r = IF (x % 8) >= 4 THEN 8 ELSE 0, !.x = IF (x % 4) >= 2 THEN 8 ELSE 0, !.b = IF (x % 2) = 1 THEN 8 ELSE 0]
      [] OTHER -> [s EXCEPT !.p = p]
NoPfx == [p |-> 0, o |-> FALSE, a |-> FALSE, lock |-> FALSE, rep |-> "", seg |-> "", rex |-> FALSE, w |-> FALSE, r |-> 0, x |-> 0, b |-> 0,
          vex |-> FALSE, l |-> 0, v |-> 0, pp |-> "", map |-> 0]
PP(n) == <<"np", "66", "f3", "f2">>[n + 1]
(* after the prefixes: the opcode's map, or a VEX prefix *)
Opcode(b, s, mode) ==
    LET p == s.p  x == b[p] IN
    IF x = 197 /\ (mode = 64 \/ b[p + 1] >= 192) THEN
        LET y == b[p + 1] IN
        [s EXCEPT !.vex = TRUE, !.r = IF y >= 128 THEN 0 ELSE 8, !.v = 15 - ((y \div 8) % 16), !.l = (y \div 4) % 2, !.pp = PP(y % 4), !.map = 1, !.p = p + 2]
    ELSE IF x = 196 /\ (mode = 64 \/ b[p + 1] >= 192) THEN
        LET y == b[p + 1]  z == b[p + 2] IN
        [s EXCEPT !.vex = TRUE, !.r = IF y >= 128 THEN 0 ELSE 8, !.x = IF (y % 128) >= 64 THEN 0 ELSE 8, !.b = IF (y % 64) >= 32 THEN 0 ELSE 8, !.map = IF (y % 32) \in 1..3 THEN y % 32 ELSE 0,
                  !.w = z >= 128, !.v = 15 - ((z \div 8) % 16), !.l = (z \div 4) % 2, !.pp = PP(z % 4), !.p = p + 3]
    ELSE IF x = 15 THEN
        IF b[p + 1] = 56 THEN [s EXCEPT !.map = 2, !.p = p + 2] ELSE IF b[p + 1] = 58 THEN [s EXCEPT !.map = 3, !.p = p + 2] ELSE [s EXCEPT !.map = 1, !.p = p + 1]
    ELSE s

Pairs16 == << <<"bx", "si">>, <<"bx", "di">>, <<"bp", "si">>, <<"bp", "di">>, <<"si">>, <<"di">>, <<"bp">>, <<"bx">> >>
Lin(regs) == LET names == {regs[k][1] : k \in 1..Len(regs)} IN
    {<<n, FoldLeft(LAMBDA t, x : t + (IF x[1] = n THEN x[2] ELSE 0), 0, regs)>> : n \in names}
(* memory operand of the ModRM byte at p: [len, m, rip] *)
Memory(b, p, mode, s) ==
    LET mod == b[p] \div 64  rm == b[p] % 8
        asz == IF mode = 64 THEN (IF s.a THEN 32 ELSE 64) ELSE IF (mode = 32) # s.a THEN 32 ELSE 16
        R(n) == IF asz = 64 THEN R64[n + 1] ELSE R32[n + 1]
        mk(len, regs, base, d, rip) == [len |-> len, rip |-> rip,
            m |-> [k |-> "m", sz |-> 0, a |-> asz, seg |-> s.seg, base |-> base, regs |-> Lin(regs), d |-> SExt(d, asz \div 8)]]
        D(q, n) == IF n = 0 THEN <<0>> ELSE SubSeq(b, q, q + n - 1)
    IN IF asz = 16 THEN
        LET n == IF mod = 0 THEN (IF rm = 6 THEN 2 ELSE 0) ELSE mod
            regs == IF mod = 0 /\ rm = 6 THEN <<>> ELSE [k \in 1..Len(Pairs16[rm + 1]) |-> <<Pairs16[rm + 1][k], 1>>]
        IN mk(1 + n, regs, IF regs = <<>> THEN "" ELSE regs[1][1], D(p + 1, n), FALSE)
    ELSE IF rm = 4 THEN
        LET sib == b[p + 1]  sc == <<1, 2, 4, 8>>[(sib \div 64) + 1]  ix == ((sib \div 8) % 8) + s.x  ba == sib % 8
            nob == mod = 0 /\ ba = 5
            n == IF mod = 0 THEN (IF nob THEN 4 ELSE 0) ELSE IF mod = 1 THEN 1 ELSE 4
        IN mk(2 + n, (IF nob THEN <<>> ELSE <<<<R(ba + s.b), 1>>>>) \o (IF ix = 4 THEN <<>> ELSE <<<<R(ix), sc>>>>), IF nob THEN "" ELSE R(ba + s.b), D(p + 2, n), FALSE)
    ELSE IF mod = 0 /\ rm = 5 THEN mk(5, <<>>, "", D(p + 1, 4), mode = 64)
    ELSE LET n == IF mod = 0 THEN 0 ELSE IF mod = 1 THEN 1 ELSE 4 IN mk(1 + n, <<<<R(rm + s.b), 1>>>>, R(rm + s.b), D(p + 1, n), FALSE)

OpSize(s, mode, r) ==
    IF s.w THEN 8
    ELSE IF mode = 64 /\ "f64" \in r.fl THEN 8
    ELSE IF mode = 64 /\ "d64" \in r.fl THEN (IF s.o THEN 2 ELSE 8)
    ELSE IF (mode = 16) # s.o THEN 2 ELSE 4
Width(c, osz, s) == CASE c = "b" -> 1 [] c = "w" -> 2 [] c = "d" -> 4 [] c = "q" -> 8 [] c = "v" -> osz
                      [] c = "y" -> (IF s.w THEN 8 ELSE 4) [] OTHER -> 0
YSize(s, mode, r) == IF mode = 64 /\ "f64" \in r.fl THEN 8 ELSE IF s.w THEN 8 ELSE 4
VReg(c, s, n) == IF c \in {"y", "y2"} \/ (c = "x" /\ s.l = 1) THEN YM[n + 1] ELSE XM[n + 1]
(* does row r read the bytes behind the opcode at p *)
Fits0(r, b, p, s, mode) ==
    /\ ("vex" \in r.fl) = s.vex
    /\ IF s.vex THEN r.pfx = s.pp ELSE
         CASE r.pfx = "" -> TRUE
           [] r.pfx = "np" -> s.rep = "" /\ ~s.o
           [] r.pfx = "66" -> s.o /\ s.rep = ""
           [] OTHER -> s.rep = r.pfx
    /\ ("i64" \in r.fl => mode # 64) /\ ("o64" \in r.fl => mode = 64)
    /\ ("w0" \in r.fl => ~s.w) /\ ("w1" \in r.fl => s.w) /\ ("l0" \in r.fl => s.l = 0) /\ ("l1" \in r.fl => s.l = 1)
    /\ ("nop" \in r.fl => s.b = 0) /\ ("b8" \in r.fl => s.b = 8) /\ "alt" \notin r.fl
    /\ HasModrm(r) =>
        LET m == b[p + 1]  reg == m >= 192 IN
        /\ IF "mrm" \in r.fl THEN m = r.ext ELSE r.ext >= 0 => r.ext = (m \div 8) % 8
        /\ \A k \in 1..Len(r.args) :
            /\ r.args[k][1] \in {"R", "N", "U", "T"} => reg
            /\ r.args[k][1] \in {"M", "MV"} => ~reg
        /\ (r.args = <<>> /\ "mrm" \notin r.fl) => reg
RowOf(b, p, s, mode) ==
    LET c == {r \in TLCGet(77).index[s.map * 256 + b[p]] : Fits0(Rows[r], b, p, s, mode)}
        m == {r \in c : Rows[r].pfx # "" \/ "mrm" \in Rows[r].fl}
        t == {r \in m : "mrm" \in Rows[r].fl}
    IN IF t # {} THEN t ELSE IF m # {} THEN m ELSE c

MSize(a, osz, s) == CASE a = "v" -> osz [] a = "p" -> osz + 2 [] a = "2v" -> 2 * osz [] a = "y" -> (IF s.w THEN 8 ELSE 4) [] a = "x" -> (IF s.l = 1 THEN 32 ELSE 16) [] OTHER -> 0

(* [op, args, len, rep, lock, ok]; b must go on for 15 bytes behind p *)
Undecoded(p) == [op |-> "?", args |-> <<>>, len |-> 1, rep |-> "", lock |-> FALSE, n |-> 0]
Decode(b, p0, mode) ==
    LET s1 == Pref(b, p0, mode, NoPfx)  s == Opcode(b, s1, mode)
        rs == RowOf(b, s.p, s, mode)
    IN IF Cardinality(rs) # 1 THEN [Undecoded(p0) EXCEPT !.n = Cardinality(rs)] ELSE
    LET r == Rows[CHOOSE x \in rs : TRUE]
        osz == OpSize(s, mode, r)
        hm == HasModrm(r)
        mp == s.p + 1
        m == IF hm THEN b[mp] ELSE 0
        ismem == hm /\ m < 192 /\ ~("mrm" \in r.fl) /\ ~(\E k \in 1..Len(r.args) : r.args[k][1] = "R" /\ r.args[k][2] = "y" /\ "f64" \in r.fl)
        mo == Memory(b, mp, mode, s)
        rm == (m % 8) + s.b
        reg == ((m \div 8) % 8) + s.r
        asz == IF mode = 64 THEN (IF s.a THEN 4 ELSE 8) ELSE IF (mode = 32) # s.a THEN 4 ELSE 2
        ilen(a) == IF a[1] = "L" THEN 1 ELSE IF a[1] = "O" THEN asz ELSE IF a[1] # "I" THEN 0 ELSE
            CASE a[2] \in {"b", "s"} -> 1 [] a[2] = "w" -> 2 [] a[2] = "z" -> (IF osz = 2 THEN 2 ELSE 4) [] OTHER -> osz
        ip0 == mp + (IF ~hm THEN 0 ELSE IF ismem THEN mo.len ELSE 1)
        RECURSIVE At(_)
        At(k) == IF k = 1 THEN ip0 ELSE At(k - 1) + ilen(r.args[k - 1])
        end == At(Len(r.args) + 1)
        mem(sz) == IF mo.rip THEN [mo.m EXCEPT !.sz = sz, !.d = Add(mo.m.d, SubSeq(Num(end - 1), 1, Len(mo.m.d)))] ELSE [mo.m EXCEPT !.sz = sz]
        arg(k) == LET a == r.args[k]  c == a[1]
                      im == SubSeq(b, At(k), At(k) + ilen(a) - 1)
                      gsz == IF c \in {"M", "Q"} THEN 0 ELSE IF a[2] = "y" THEN YSize(s, mode, r) ELSE Width(a[2], osz, s)
                  IN
            CASE c \in {"E", "R"} -> IF ismem THEN mem(gsz) ELSE Reg(Gpr(gsz, rm, s.rex))
              [] c = "G" -> Reg(Gpr(gsz, reg, s.rex))
              [] c = "Z" -> Reg(Gpr(gsz, (b[s.p] % 8) + s.b, s.rex))
              [] c = "A" -> Reg(Gpr(gsz, 0, FALSE))
              [] c = "M" -> mem(a[2])
              [] c = "MV" -> mem(MSize(a[2], osz, s))
              [] c = "F" -> Reg(a[2])
              [] c = "1" -> [k |-> "i", v |-> <<1>>]
              [] c = "I" -> [k |-> "i", v |-> IF a[2] \in {"s", "z"} THEN SExt(im, osz) ELSE im]
              [] c = "O" -> [k |-> "m", sz |-> gsz, a |-> asz * 8, seg |-> s.seg, base |-> "", regs |-> {}, d |-> im]
              [] c = "S" -> Reg(SR[((m \div 8) % 8) + 1])
              [] c = "C" -> Reg(CR[reg + 1])
              [] c = "D" -> Reg(DR[reg + 1])
              [] c = "P" -> Reg(MM[(reg % 8) + 1])
              [] c \in {"Q", "N"} -> IF ismem THEN mem(a[2]) ELSE Reg(MM[(rm % 8) + 1])
              [] c = "V" -> Reg(VReg(a[2], s, reg))
              [] c = "H" -> Reg(IF a[2] = "y" THEN Gpr(gsz, s.v, TRUE) ELSE VReg(a[2], s, s.v))
              [] c = "L" -> Reg(VReg(a[2], s, im[1] \div 16))
              [] c \in {"W", "U"} -> IF ismem THEN mem(IF a[2] = "x" THEN (IF s.l = 1 THEN 32 ELSE 16) ELSE a[3]) ELSE Reg(VReg(a[2], s, rm))
              [] OTHER -> Reg(ST[(m % 8) + 1])
        hasv == \E k \in 1..Len(r.args) : r.args[k][1] = "H"
    IN IF s.vex /\ ~hasv /\ s.v # 0 THEN Undecoded(p0) ELSE
       [op |-> IF "sized" \in r.fl THEN r.op[IF osz = 2 THEN 1 ELSE IF osz = 4 THEN 2 ELSE 3] ELSE r.op,
        args |-> [k \in 1..Len(r.args) |-> arg(k)], len |-> end - p0,
        rep |-> IF r.pfx \in {"f2", "f3"} THEN "" ELSE s.rep, lock |-> s.lock, n |-> 1]
=============================================================================
