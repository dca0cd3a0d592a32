------------------------------- MODULE Assume ------------------------------
(* Which segment register reaches a memory operand, given what ASSUME has     *)
(* said so far, and the bytes this gives the instruction.                     *)
(*                                                                            *)
(* An assumption table maps the six segment registers to a segment or group   *)
(* name, "NOTHING" or "ERROR".  A layout gives, for every segment, the group  *)
(* it belongs to ("" if none); symbols are [seg, off].                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
SearchOrder == <<"ds", "ss", "es", "fs", "gs", "cs">>
SegRegs == {SearchOrder[k] : k \in 1..6}
NoAssume == [r \in SegRegs |-> "NOTHING"]
\* entering and leaving a segment
OpenSeg(A, L, n) == [A EXCEPT !["cs"] = IF L[n] # "" THEN L[n] ELSE n]
CloseSeg(A) == [A EXCEPT !["cs"] = "ERROR"]
\* ASSUME r:v, r:v, ...; a register on the right stands for what it holds
Set1(A, p) == [A EXCEPT ![p[1]] = IF p[2] \in SegRegs THEN (IF A[p[2]] = "ERROR" THEN "NOTHING" ELSE A[p[2]]) ELSE p[2]]
SetMany(A, ps) == FoldLeft(LAMBDA a, p : Set1(a, p), A, ps)
----
\* the base register decides which segment register is used if nothing is said
Default(base) == IF base \in {"bp", "ebp", "esp"} THEN "ss" ELSE "ds"
\* holders of one of the names, in the order in which they are considered
First(A, names) == LET q == SelectSeq(SearchOrder, LAMBDA r : A[r] \in names) IN IF q = <<>> THEN "" ELSE q[1]
Reach(A, L, seg, def) ==
  LET grp == IF L[seg] = "" THEN {} ELSE {L[seg]} IN
  IF A[def] \in {seg} \cup grp THEN def
  ELSE IF First(A, {seg}) # "" THEN First(A, {seg}) ELSE First(A, grp)
ReachName(A, n, def) == IF A[def] = n THEN def ELSE First(A, {n})
\* result of addressing an operand [ov, base, seg]: ov is "", a register or a
\* segment/group name; seg is the segment of the operand's symbol, or ""
\* <<"ok", prefix register or "", register used>> | <<"error">>
Address(A, L, x) ==
  LET def == Default(x.base)
      pick(r) == IF r = "" THEN <<"error", "", "">> ELSE <<"ok", IF r = def THEN "" ELSE r, r>>
  IN IF x.ov \in SegRegs THEN (IF A[x.ov] = "ERROR" THEN <<"error", "", "">> ELSE pick(x.ov))
     ELSE IF x.ov # "" THEN pick(ReachName(A, x.ov, def))
     ELSE IF x.seg # "" THEN pick(Reach(A, L, x.seg, def))
     ELSE <<"ok", "", def>>
\* what the displacement of a symbol counts from: "grp", "seg" or "any" (the
\* register is said to hold something unrelated)
Frame(A, L, x, reg) ==
  LET g == L[x.seg] IN
  IF g = "" THEN (IF x.ov = "" \/ reg = "" \/ A[reg] \in {x.seg, "NOTHING"} THEN "seg" ELSE "any")
  ELSE IF x.ov # "" /\ x.ov \notin SegRegs THEN (IF x.ov = g THEN "grp" ELSE IF x.ov = x.seg THEN "seg" ELSE "any")
  ELSE IF reg = "" \/ A[reg] \in {g, "NOTHING"} THEN "grp" ELSE IF A[reg] = x.seg THEN "seg" ELSE "any"
----
\* bytes; an address is left as a token to be filled in when the layout is known
B(v) == [n |-> 1, v |-> v]                \* a byte; -1 for any
Bs(b) == [k \in DOMAIN b |-> B(b[k])]
PrefixByte(r) == Bs( CASE r = "" -> <<>> [] r = "es" -> <<38>> [] r = "cs" -> <<46>> [] r = "ss" -> <<54>>
                   [] r = "ds" -> <<62>> [] r = "fs" -> <<100>> [] r = "gs" -> <<101>>)
R32 == [eax |-> 0, ecx |-> 1, edx |-> 2, ebx |-> 3, esp |-> 4, ebp |-> 5, esi |-> 6, edi |-> 7]
Rm16(base, idx) ==
  CASE <<base, idx>> = <<"bx", "si">> -> 0 [] <<base, idx>> = <<"bx", "di">> -> 1 [] <<base, idx>> = <<"bp", "si">> -> 2
    [] <<base, idx>> = <<"bp", "di">> -> 3 [] <<base, idx>> = <<"si", "">> -> 4 [] <<base, idx>> = <<"di", "">> -> 5
    [] <<base, idx>> = <<"bp", "">> -> 6 [] <<base, idx>> = <<"bx", "">> -> 7
Num(v, n) == [k \in 1..n |-> B(IF k = 1 THEN v % 256 ELSE IF k = 2 THEN (v \div 256) % 256 ELSE IF v < 0 THEN 255 ELSE 0)]
Wide(x) == IF x.use = 16 THEN 2 ELSE 4
\* the displacement of operand x: a symbol's address, or a number
Disp(x, fr, n) == IF x.seg = "" THEN Num(x.off, n) ELSE IF fr = "any" THEN [k \in 1..n |-> B(-1)] ELSE <<[seg |-> x.seg, off |-> x.off, fr |-> fr, n |-> n]>>
\* ModRM (and SIB) of operand x with reg field g
ModRM(x, g, fr) ==
  LET n == Wide(x)
      small == x.seg = "" /\ x.off >= -128 /\ x.off <= 127
      mod == IF x.seg # "" THEN 2 ELSE IF x.off = 0 /\ x.base \notin {"ebp"} /\ ~(x.base = "bp" /\ x.idx = "") THEN 0 ELSE IF small THEN 1 ELSE 2
      d == CASE mod = 0 -> <<>> [] mod = 1 -> Num(x.off, 1) [] mod = 2 -> Disp(x, fr, n)
  IN IF x.base = "" /\ x.idx = "" THEN Bs(<<(IF x.use = 16 THEN 6 ELSE 5) + 8 * g>>) \o Disp(x, fr, n)
     ELSE IF x.use = 16 THEN Bs(<<64 * mod + 8 * g + Rm16(x.base, x.idx)>>) \o d
     ELSE IF x.base = "" THEN Bs(<<8 * g + 4, 64 * x.sc + 8 * R32[x.idx] + 5>>) \o Disp(x, fr, n)
     ELSE IF x.idx # "" \/ x.base = "esp"
          THEN Bs(<<64 * mod + 8 * g + 4, 64 * x.sc + 8 * (IF x.idx = "" THEN 4 ELSE R32[x.idx]) + R32[x.base]>>) \o d
     ELSE Bs(<<64 * mod + 8 * g + R32[x.base]>>) \o d
Direct(x) == x.base = "" /\ x.idx = ""
\* an instruction with memory operand x: [err, b]
Access(A, L, x) ==
  LET a == Address(A, L, x)
      fr == IF x.seg = "" THEN "" ELSE Frame(A, L, x, a[3])
      \* LEA takes no segment, only the offset; naming one is not specified
      lea == IF x.seg = "" THEN "" ELSE IF x.ov \notin SegRegs \cup {"", L[x.seg]} THEN "any" ELSE Frame(A, L, x, "")
      pre == PrefixByte(a[2])
      ok(b) == [err |-> a[1] # "ok", b |-> b]
  IN CASE x.ins = "inc" -> ok(pre \o Bs(<<254>>) \o ModRM(x, 0, fr))
       [] x.ins = "ldal" -> ok(pre \o IF Direct(x) THEN Bs(<<160>>) \o Disp(x, fr, Wide(x)) ELSE Bs(<<138>>) \o ModRM(x, 0, fr))
       [] x.ins = "stal" -> ok(pre \o IF Direct(x) THEN Bs(<<162>>) \o Disp(x, fr, Wide(x)) ELSE Bs(<<136>>) \o ModRM(x, 0, fr))
       [] x.ins = "ldcl" -> ok(pre \o Bs(<<138>>) \o ModRM(x, 1, fr))
       [] x.ins = "imm" -> ok(pre \o Bs(<<198>>) \o ModRM(x, 0, fr) \o Bs(<<90>>))
       [] x.ins = "lea" -> [err |-> x.ov \in SegRegs /\ A[x.ov] = "ERROR", b |-> Bs(<<141>>) \o ModRM(x, 6, lea)]
       [] x.ins = "xlat" -> ok(pre \o Bs(<<215>>))
       [] x.ins = "lods" -> [err |-> x.ov # "" /\ A[x.ov] = "ERROR", b |-> (IF x.ov \in {"", "ds"} THEN <<>> ELSE PrefixByte(x.ov)) \o Bs(<<172>>)]
=============================================================================
