------------------------------ MODULE Context ------------------------------
(* The settings of a module that PUSHCONTEXT saves and POPCONTEXT restores:   *)
(* assumptions (segment registers and one general register), radix, listing,  *)
(* processor, alignment; with statements that show them: memory operands,     *)
(* numbers, instructions, listed lines, structures and procedures.            *)
EXTENDS Assume, Json
C == INSTANCE Cpu
Kinds == {"assumes", "radix", "listing", "cpu", "alignment"}
Parts(k) == IF k = "all" THEN Kinds \ {"alignment"} ELSE {k}
\* the settings, by kind
Settings0(cpu) == [assumes |-> [seg |-> NoAssume, std |-> "nothing"], radix |-> 10,
                   listing |-> [list |-> TRUE, mac |-> "code", iff |-> FALSE],
                   cpu |-> cpu, alignment |-> [field |-> 1, proc |-> 1]]
Start(h) == [set |-> Settings0(C!Set(C!Start, [k |-> "cpu", lvl |-> 3, pm |-> FALSE])), saved |-> [k \in Kinds |-> <<>>],
             seg |-> "", h |-> h, code |-> [n \in DOMAIN h.grp |-> <<>>], loc |-> [n \in DOMAIN h.grp |-> 0],
             e1 |-> {}, e2 |-> {}, show |-> {}, hide |-> {}, stop |-> 0]
Fail(s, pc, late) == IF late THEN [s EXCEPT !.e2 = @ \cup {pc}] ELSE [s EXCEPT !.e1 = @ \cup {pc}]
Mark(s, m, yes) == IF yes THEN [s EXCEPT !.show = @ \cup {m}] ELSE [s EXCEPT !.hide = @ \cup {m}]
\* code is a sequence of tokens: bytes (n = 1, with v) and addresses
Size(b) == FoldLeft(LAMBDA a, t : a + t.n, 0, b)
Lit(b) == [k \in DOMAIN b |-> [n |-> 1, v |-> b[k]]]
Put(s, b) == [s EXCEPT !.code[s.seg] = @ \o b, !.loc[s.seg] = @ + Size(b)]
W(x) == <<x % 256, x \div 256>>
----
Push(s, ks) == FoldLeft(LAMBDA a, k : [a EXCEPT !.saved = [j \in Kinds |-> IF j \in Parts(k) THEN <<a.set[j]>> \o a.saved[j] ELSE a.saved[j]]], s, ks)
Pop(s, ks, pc) ==
  FoldLeft(LAMBDA a, k :
      IF pc \in a.e1 THEN a
      ELSE LET have == {j \in Parts(k) : a.saved[j] # <<>>}
               b == [a EXCEPT !.set = [j \in Kinds |-> IF j \in have THEN a.saved[j][1] ELSE a.set[j]],
                              !.saved = [j \in Kinds |-> IF j \in have THEN Tail(a.saved[j]) ELSE a.saved[j]]]
           IN IF have = Parts(k) THEN b ELSE [Fail(b, pc, FALSE) EXCEPT !.stop = pc], s, ks)
\* the operand's symbol is known when the statement is first read
Known(s, x) == x.seg = "" \/ ~s.h.late \/ x.seg \in {"CS1", "CS2"}
Acc(s, x, pc) ==
  LET r == Access(s.set.assumes.seg, s.h.grp, x)
      soon == Known(s, x) \/ (x.ov \in SegRegs /\ s.set.assumes.seg[x.ov] = "ERROR")
      bx == s.set.assumes.std = "error" /\ {x.base, x.idx} \cap {"bx", "ebx"} # {}
  IN IF r.err \/ bx THEN Fail(s, pc, ~soon /\ ~bx) ELSE Put(s, r.b)
StdBytes(s) == LET v == s.set.assumes.std m == IF s.h.use = 16 THEN 7 ELSE 3 IN
  CASE v = "byte" -> <<254, m>> [] v = "word" -> (IF s.h.use = 16 THEN <<>> ELSE <<102>>) \o <<255, m>>
    [] v = "dword" -> (IF s.h.use = 16 THEN <<102>> ELSE <<>>) \o <<255, m>>
Up(v, a) == ((v + a - 1) \div a) * a
StructSize(f) == Up(1, f) + 8
Pads(s) == LET a == s.set.alignment.proc IN (a - ((s.h.size[s.seg] + s.loc[s.seg]) % a)) % a
\* (after a restore of what is not saved the settings are not specified)
Step(s, S, pc) ==
  CASE s.stop # 0 -> s
    [] S.op = "assume" -> [s EXCEPT !.set.assumes.seg = SetMany(@, S.ps)]
    [] S.op = "nothing" -> [s EXCEPT !.set.assumes = [seg |-> NoAssume, std |-> "nothing"]]
    [] S.op = "std" -> [s EXCEPT !.set.assumes.std = S.v]
    [] S.op = "seg" -> [s EXCEPT !.seg = S.n, !.set.assumes.seg = OpenSeg(@, s.h.grp, S.n)]
    [] S.op = "ends" -> [s EXCEPT !.seg = "", !.set.assumes.seg = CloseSeg(@)]
    [] S.op = "acc" -> Acc(s, S.x, pc)
    [] S.op = "incbx" -> IF s.set.assumes.std \in {"nothing", "error"} THEN Fail(s, pc, FALSE) ELSE Put(s, Lit(StdBytes(s)))
    [] S.op = "radix" -> [s EXCEPT !.set.radix = S.r]
    [] S.op = "num" -> Put(s, Lit(<<s.set.radix>>))
    [] S.op = "cpu" -> [s EXCEPT !.set.cpu = C!Set(@, S.d)]
    [] S.op = "atcpu" -> Put(s, Lit(W(C!AtCpu(s.set.cpu))))
    [] S.op = "ins" -> IF C!Accepts(s.set.cpu, S.i) THEN Put(s, Lit(C!Code(s.set.cpu, S.i))) ELSE Fail(s, pc, FALSE)
    [] S.op = "list" -> [s EXCEPT !.set.listing.list = S.on]
    [] S.op = "lmac" -> [s EXCEPT !.set.listing.mac = S.how]
    [] S.op = "lif" -> [s EXCEPT !.set.listing.iff = S.on]
    [] S.op = "tif" -> [s EXCEPT !.set.listing.iff = ~@]
    [] S.op = "lall" -> [s EXCEPT !.set.listing = [list |-> TRUE, mac |-> @.mac, iff |-> TRUE]]
    [] S.op = "plain" -> Mark(s, S.m, s.set.listing.list)
    [] S.op = "mac" -> Put(Mark(Mark(s, S.m, s.set.listing.list /\ s.set.listing.mac # "none"), S.m + 1, s.set.listing.list /\ (s.set.listing.mac = "all" \/ (s.set.listing.mac = "code" /\ s.set.listing.iff))), Lit(<<66>>))
    [] S.op = "false" -> Mark(s, S.m, s.set.listing.list /\ s.set.listing.iff)
    [] S.op = "field" -> [s EXCEPT !.set.alignment.field = S.a]
    [] S.op = "palign" -> [s EXCEPT !.set.alignment.proc = S.a]
    [] S.op = "struct" -> Put(s, Lit(<<StructSize(s.set.alignment.field)>>))
    [] S.op = "proc" -> Put(s, Lit([k \in 1..Pads(s) |-> -1] \o <<195>>))
    [] S.op = "push" -> Push(s, S.ks)
    [] S.op = "pop" -> Pop(s, S.ks, pc)
----
\* the image: segments in the order of the layout, each at a multiple of 16
Para(v) == Up(v, 16)
Bases(s) == FoldLeft(LAMBDA a, n : [at |-> [a.at EXCEPT ![n] = Para(a.end)], end |-> Para(a.end) + s.h.size[n] + s.loc[n]],
                     [at |-> [n \in DOMAIN s.h.grp |-> 0], end |-> 0], s.h.order)
GroupBase(s, at, g) == LET ms == {at[n] : n \in {m \in DOMAIN s.h.grp : s.h.grp[m] = g}} IN CHOOSE v \in ms : \A w \in ms : v <= w
Fill(s, at, t) == IF "v" \in DOMAIN t THEN <<t.v>>
                  ELSE LET v == t.off + IF t.fr = "grp" THEN at[t.seg] - GroupBase(s, at, s.h.grp[t.seg]) ELSE 0
                       IN [k \in 1..t.n |-> IF k = 1 THEN v % 256 ELSE IF k = 2 THEN v \div 256 ELSE 0]
Code(s, at, n) == FoldLeft(LAMBDA a, t : a \o Fill(s, at, t), <<>>, s.code[n])
Verdict(s) == LET b == Bases(s) IN
  [at |-> b.at, end |-> b.end, code |-> [n \in {m \in DOMAIN s.h.grp : s.code[m] # <<>>} |-> Code(s, b.at, n)],
   e1 |-> s.e1, e2 |-> s.e2, show |-> s.show, hide |-> s.hide, stop |-> s.stop]
=============================================================================
