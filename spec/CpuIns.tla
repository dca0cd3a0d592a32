------------------------------ MODULE CpuIns -------------------------------
(* Instructions by the processor they came with (the manuals' tables), and    *)
(* whether a segment of a mode may have them. Addresses are written [bx]; the *)
(* check widens the registers in brackets in 32- and 64-bit segments.         *)
EXTENDS Cpu
G(modes, lvl, pm, fpu, ext, wait, txt) == [modes |-> modes, lvl |-> lvl, pm |-> pm, fpu |-> fpu, ext |-> ext, wait |-> wait, txt |-> txt]
I(modes, lvl, txt) == G(modes, lvl, FALSE, 0, {}, FALSE, txt)
P(modes, lvl, txt) == G(modes, lvl, TRUE, 0, {}, FALSE, txt)
F(lvl, fpu, wait, txt) == G({16, 32, 64}, lvl, FALSE, fpu, {}, wait, txt)
X(modes, lvl, ext, txt) == G(modes, lvl, FALSE, 0, ext, FALSE, txt)
All == {16, 32, 64}
Old == {16, 32}      \* gone in 64-bit mode
Groups == <<
  I(All, 0, <<"mov ax,bx", "mov al,[bx+si+5]", "add word ptr [di],7", "push ax", "xchg ax,cx", "lea si,[bp]", "mul cl", "div bx", "shl ax,1", "shl al,cl", "rol byte ptr [bx],cl", "movsb",
      "rep stosw", "cmpsw", "scasb", "lodsw", "int 21h", "iret", "cbw", "cwd", "lahf", "sahf", "pushf", "popf", "cli", "sti", "clc", "stc", "cmc", "cld", "std", "hlt", "nop", "in al,dx",
      "out dx,ax", "in ax,60h", "out 61h,al", "mov ds,ax", "mov ax,es", "ret", "retf", "lock add [bx],ax", "wait", "test al,5", "neg bx", "not cl", "sbb ax,[si]", "adc dl,3",
      "imul bl", "idiv cx", "xlat", "loop $", "jz $", "ret 8", "mov byte ptr [bx],5", "cmp ax,1234h", "or bl,bh", "and cx,[bp+di]", "xor dx,dx", "inc bl", "dec word ptr [bx]", "repne scasb", "int 3">>),
  I(Old, 0, <<"lds si,[bx]", "les di,[bx]", "into", "daa", "das", "aaa", "aas", "aam", "aad", "push cs", "pop es", "push ds", "jcxz $">>),
  I(All, 1, <<"enter 4,0", "leave", "insb", "insw", "outsb", "outsw", "push 5", "push 1234h", "shl ax,3", "ror byte ptr [bx],4", "rcl bx,7", "imul ax,bx,5", "imul cx,1234h", "imul si,[di],-2", "sar dl,2", "rep insb", "rep outsw">>),
  I(Old, 1, <<"pusha", "popa", "bound ax,[bx]">>),
  I(All, 2, <<"lar ax,bx", "lsl ax,bx", "verr ax", "verw [bx]", "sldt ax", "str ax", "smsw ax">>),
  I(Old, 2, <<"arpl ax,bx">>),
  P(All, 2, <<"clts", "lldt ax", "ltr ax", "lmsw ax">>),
  P(Old, 2, <<"lgdt fword ptr [bx]", "lidt fword ptr [bx]">>),
  I(All, 3, <<"mov eax,ebx", "mov ax,[eax]", "mov al,[ebx+ecx*4]", "movzx ax,bl", "movsx eax,cx", "movsx ax,byte ptr [bx]", "bt ax,3", "bts [bx],ax", "btr cx,dx", "btc bx,1", "bsf ax,bx", "bsr ax,cx",
      "shld ax,bx,3", "shrd ax,bx,cl", "sete al", "setnle byte ptr [bx]", "lfs ax,[bx]", "lgs ax,[bx]", "lss sp,[bx]", "mov fs,ax", "mov ax,gs", "push fs", "pop gs", "mov al,fs:[bx]", "movsd", "stosd",
      "lodsd", "scasd", "cmpsd", "insd", "outsd", "cwde", "cdq", "iretd", "imul ax,bx", "jecxz $", "add eax,5", "xchg eax,edx", "in eax,dx", "out 5,eax", "imul eax,ecx,7", "test edi,5", "neg ebp", "lea eax,[bx]", "shr edx,9", "cmp dword ptr [bx],5">>),
  I(Old, 3, <<"pushad", "popad", "pushfd", "popfd", "push dword ptr [bx]", "push eax", "pop ebx">>),
  I(All, 3, <<"push 12345678h", "inc ecx">>),
  \* (control, debug, test registers and the later privileged instructions: no difference is made between .386 and .386P here)
  I(Old, 3, <<"mov eax,cr3", "mov cr3,eax", "mov eax,dr7", "mov dr0,ebx", "mov ecx,dr6">>),
  I(All, 4, <<"bswap eax", "xadd ax,bx", "xadd [bx],cl", "cmpxchg ax,bx", "cmpxchg [bx],dl", "cmpxchg [bx],edx", "invd", "wbinvd", "invlpg [bx]">>),
  I(All, 5, <<"cpuid", "rdtsc", "cmpxchg8b qword ptr [bx]", "rdmsr", "wrmsr", "rsm", "rdpmc">>),
  I(Old, 5, <<"mov cr4,eax">>),
  I(All, 6, <<"cmovz ax,bx", "cmovnle ax,[bx]", "cmovb eax,ecx", "ud2", "sysenter">>),
  P(All, 6, <<"sysexit">>),
  F(0, 1, TRUE, <<"fadd", "fld st(1)", "fld dword ptr [bx]", "fstp tbyte ptr [bx]", "fmul st,st(2)", "fcom", "fchs", "fabs", "fsqrt", "fldpi", "fld1", "fldz", "fptan", "fpatan", "f2xm1", "fscale", "fxam",
      "ftst", "frndint", "fild word ptr [bx]", "fistp qword ptr [bx]", "fbld tbyte ptr [bx]", "fincstp", "ffree st(3)", "fxch st(1)", "fcompp", "fdivr qword ptr [bx]", "fiadd word ptr [bx]">>),
  F(0, 1, FALSE, <<"fninit", "fnclex", "fnstcw [bx]", "fnstsw [bx]", "fnstenv [bx]", "fnsave [bx]">>),
  F(0, 2, TRUE, <<"fsetpm">>), F(0, 2, FALSE, <<"fnstsw ax">>),
  F(0, 3, TRUE, <<"fsin", "fcos", "fsincos", "fprem1", "fucom st(1)", "fucomp", "fucompp">>),
  F(6, 3, TRUE, <<"fcmovb st,st(1)", "fcmovnu st,st(2)", "fcomi st,st(1)", "fcomip st,st(1)", "fucomi st,st(1)", "fucomip st,st(2)">>),
  X(All, 5, {"MMX", "K3D", "SSE"}, <<"emms", "movd mm0,eax", "movq mm1,mm2", "paddb mm0,mm1", "pand mm0,[bx]", "psllw mm1,3", "packsswb mm0,mm1", "pmaddwd mm2,[bx]", "pcmpeqb mm1,mm2">>),
  \* (.XMM does not take 3DNow! away)
  X(All, 5, {"K3D", "SSE"}, <<"femms", "pfadd mm0,mm1", "pfmul mm0,[bx]", "pi2fd mm1,mm2", "pavgusb mm0,mm1">>),
  X(All, 6, {"SSE"}, <<"movaps xmm0,xmm1", "addps xmm0,[bx]", "mulss xmm1,xmm2", "sfence", "movups [bx],xmm1", "sqrtps xmm1,xmm2", "ldmxcsr [bx]", "prefetchnta [bx]", "addpd xmm0,xmm1",
      "movdqa xmm0,[bx]", "paddb xmm0,xmm1", "lfence", "mfence", "pause", "movnti [bx],eax", "haddps xmm0,xmm1", "lddqu xmm0,[bx]", "pshufb xmm0,xmm1", "pabsb xmm0,xmm1", "pmulld xmm0,xmm1",
      "blendps xmm0,xmm1,1", "crc32 eax,bl", "popcnt ax,bx", "pcmpestri xmm0,xmm1,3", "aesenc xmm0,xmm1", "vaddps xmm0,xmm1,xmm2", "vzeroall", "vmovaps xmm0,xmm1">>),
  I({64}, 7, <<"mov rax,rbx", "mov r8d,eax", "push r12", "cqo", "movsxd rax,ecx", "syscall", "cdqe", "lodsq", "stosq", "jrcxz $", "add spl,1", "mov r9b,5", "pop rbx", "iretq", "lea rax,[rbx+r8]", "movaps xmm8,xmm1", "cmpxchg16b oword ptr [bx]">>)
>>
RECURSIVE Flat(_, _)
Flat(g, k) == IF g > Len(Groups) THEN <<>> ELSE IF k > Len(Groups[g].txt) THEN Flat(g + 1, 1)
              ELSE <<[Groups[g] EXCEPT !.txt = Groups[g].txt[k]]>> \o Flat(g, k + 1)
Ins == TLCEval(Flat(1, 1))
Has(c, i) == /\ c.lvl >= i.lvl /\ (i.pm => c.pm) /\ c.fpu >= i.fpu
             /\ (i.ext # {} => c.ext \intersect i.ext # {})
Allowed(c, i, mode) == mode \in i.modes /\ Has(c, i)
\* a wait instruction in front, before the 80286
Waits(c, i) == i.wait /\ c.lvl < 2
(* ---- the directives *)
Exts == <<{"MMX"}, {"MMX", "K3D"}, {"MMX", "SSE"}>>
Cpus == <<".8086", ".186", ".286", ".386", ".486", ".586", ".686">>
CpuDirs == [k \in 1..7 |-> [t |-> Cpus[k], k |-> "cpu", lvl |-> k - 1, pm |-> FALSE]] \o
           [k \in 1..5 |-> [t |-> <<".286p", ".386p", ".486p", ".586p", ".686p">>[k], k |-> "cpu", lvl |-> k + 1, pm |-> TRUE]] \o
           << [t |-> ".x64", k |-> "x64", lvl |-> 7, pm |-> FALSE], [t |-> ".x64p", k |-> "x64", lvl |-> 7, pm |-> TRUE] >>
FpuDirs == << [t |-> ".8087", k |-> "fpu", fpu |-> 1], [t |-> ".287", k |-> "fpu", fpu |-> 2], [t |-> ".387", k |-> "fpu", fpu |-> 3], [t |-> ".no87", k |-> "fpu", fpu |-> 0] >>
ExtDirs == << [t |-> ".mmx", k |-> "ext", ext |-> <<"MMX">>], [t |-> ".k3d", k |-> "ext", ext |-> <<"MMX", "K3D">>], [t |-> ".xmm", k |-> "ext", ext |-> <<"MMX", "SSE">>] >>
Dirs == CpuDirs \o FpuDirs \o ExtDirs
(* ---- by name and registers: any instruction of the opcode table (X86.tla).  *)
(* Instructions on MMX registers of the Pentium MMX, then those that came with *)
(* SSE and later (the vector registers, and some that have none).              *)
MmxOps == {"movd", "movq", "packssdw", "packsswb", "packuswb", "paddb", "paddd", "paddsb", "paddsw", "paddusb", "paddusw", "paddw", "pand", "pandn", "pcmpeqb",
          "pcmpeqd", "pcmpeqw", "pcmpgtb", "pcmpgtd", "pcmpgtw", "pmaddwd", "pmulhw", "pmullw", "por", "pslld", "psllq", "psllw", "psrad", "psraw", "psrld",
          "psrlq", "psrlw", "psubb", "psubd", "psubsb", "psubsw", "psubusb", "psubusw", "psubw", "punpckhbw", "punpckhdq", "punpckhwd", "punpcklbw",
          "punpckldq", "punpcklwd", "pxor"}
LateOps == {"andn", "bextr", "blsi", "blsmsk", "blsr", "bzhi", "clflush", "crc32", "cvtsd2si", "cvtss2si", "cvttsd2si", "cvttss2si", "fisttp", "fxrstor",
          "fxsave", "ldmxcsr", "lfence", "lzcnt", "mfence", "movnti", "mulx", "pause", "pdep", "pext", "popcnt", "prefetchnta", "prefetcht0", "prefetcht1",
          "prefetcht2", "rorx", "sarx", "sfence", "shlx", "shrx", "stmxcsr", "tzcnt", "vcvtsd2si", "vcvtss2si", "vcvttsd2si", "vcvttss2si", "vzeroall",
          "vzeroupper", "adcx"}
Lvl0Ops == {"aaa", "aas", "adc", "add", "and", "cbw", "clc", "cld", "cli", "cmc", "cmp", "cmpsb", "cwd", "daa", "das", "dec", "div", "hlt", "idiv", "in", "inc",
          "into", "lahf", "lds", "les", "lodsb", "lodsw", "movsb", "movsw", "mul", "neg", "nop", "not", "or", "out", "popf", "pushf", "rcl", "rcr", "sahf",
          "rol", "ror", "sar", "sbb", "scasb", "scasw", "shl", "shr", "stc", "std", "sti", "stosb", "stosw", "sub", "test", "wait", "xchg", "xlatb", "xor"}
Lvl1Ops == {"enter", "insb", "insw", "leave", "outsb", "popa", "pusha"}
Lvl2Ops == {"arpl", "lar", "lsl", "sgdt", "sidt", "sldt", "smsw", "str", "verr", "verw"}
Lvl3Ops == {"bsf", "bsr", "bt", "btc", "btr", "bts", "cdq", "cmpsd", "cwde", "insd", "iretd", "lfs", "lgs", "lodsd", "lss", "movsd", "movsx", "movzx", "outsd",
          "popad", "popfd", "pushad", "pushfd", "scasd", "seta", "setae", "setb", "setbe", "sete", "setg", "setge", "setl", "setle", "setne", "setno", "setnp",
          "setns", "seto", "setp", "sets", "shld", "shrd", "stosd"}
Lvl4Ops == {"bswap", "cmpxchg", "invd", "invlpg", "wbinvd", "xadd"}
Lvl5Ops == {"cmpxchg8b", "cpuid", "rdtsc"}
Lvl6Ops == {"cmova", "cmovae", "cmovb", "cmovbe", "cmove", "cmovg", "cmovge", "cmovl", "cmovle", "cmovne", "cmovno", "cmovnp", "cmovns", "cmovo", "cmovp",
          "cmovs", "sysenter", "ud2"}
Req(lvl, pm, ext) == [lvl |-> lvl, pm |-> pm, fpu |-> 0, ext |-> ext, wait |-> FALSE]
\* left open: the level of instructions whose level is in the form (mov, push, shl ...) as far as no 32-bit register says it
Lvls(op) == {l \in 0..6 : op \in CASE l = 0 -> Lvl0Ops [] l = 1 -> Lvl1Ops [] l = 2 -> Lvl2Ops [] l = 3 -> Lvl3Ops [] l = 4 -> Lvl4Ops [] l = 5 -> Lvl5Ops [] OTHER -> Lvl6Ops}
\* ks: the kinds of registers written in the instruction, "wide" any 32-bit register, "old" a number of more than one byte or a count
RowReq(op, ks) == IF ks \intersect {"xmm", "ymm"} # {} \/ op \in LateOps THEN Req(6, FALSE, {"SSE"})
                  ELSE IF "mm" \in ks THEN IF op \in MmxOps THEN Req(5, FALSE, {"MMX", "K3D", "SSE"}) ELSE Req(6, FALSE, {"SSE"})
                  ELSE LET l == CHOOSE x \in Lvls(op) : TRUE IN
                       Req(IF l < 3 /\ "wide" \in ks THEN 3 ELSE IF l < 1 /\ "count" \in ks THEN 1 ELSE l, FALSE, {})
=============================================================================
