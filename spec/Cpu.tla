-------------------------------- MODULE Cpu --------------------------------
(* The processor directives: which instructions are accepted, and @Cpu.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* level 0..7: 8086, 80186, 80286, 80386, 80486, Pentium, Pentium Pro, x64
Start == [lvl |-> 0, pm |-> FALSE, fpu |-> 1, no87 |-> FALSE, ext |-> {}]
FpuOf(l) == IF l < 2 THEN 1 ELSE IF l < 3 THEN 2 ELSE 3
ExtAll == {"MMX", "K3D", "SSE"}
Set(c, d) ==
  CASE d.k = "cpu" -> [c EXCEPT !.lvl = d.lvl, !.pm = d.pm, !.fpu = IF c.no87 THEN 0 ELSE FpuOf(d.lvl)]
    [] d.k = "fpu" -> [c EXCEPT !.fpu = d.fpu, !.no87 = (d.fpu = 0)]
    [] d.k = "ext" -> [c EXCEPT !.ext = {d.ext[j] : j \in DOMAIN d.ext}]
    [] d.k = "x64" -> [c EXCEPT !.lvl = 7, !.pm = d.pm, !.fpu = IF c.no87 THEN 0 ELSE 3, !.ext = ExtAll]
\* the value of @Cpu
Bit(b, v) == IF b THEN v ELSE 0
AtCpu(c) == 1 + Bit(c.lvl >= 1, 2) + Bit(c.lvl >= 2, 4) + Bit(c.lvl >= 3, 8) + Bit(c.lvl >= 4, 16) + Bit(c.lvl = 5, 32) + Bit(c.lvl >= 6, 64)
            + Bit(c.pm, 128) + Bit(c.fpu >= 1, 256) + Bit(c.fpu >= 2, 1024) + Bit(c.fpu >= 3, 2048)
\* [need, ...]: least level, whether privileged, least coprocessor, extension
Accepts(c, i) == /\ c.lvl >= i.lvl /\ (i.pm => c.pm) /\ c.fpu >= i.fpu
                 /\ (i.ext # "" => \E e \in c.ext : e = i.ext)
\* before the 80286 a coprocessor has to be waited for
Code(c, i) == IF i.wait /\ c.lvl < 2 THEN <<155>> \o i.b ELSE i.b
=============================================================================
