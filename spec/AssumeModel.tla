---------------------------- MODULE AssumeModel ----------------------------
(* Every history of up to K ASSUME statements over three registers; after     *)
(* each statement a set of operands is used.  The table and the choice of the *)
(* register are compared with what the text of the history says.              *)
EXTENDS Context
CONSTANT K
VARIABLES prog, s, n
vars == <<prog, s, n>>
H == [use |-> 16, late |-> FALSE, order |-> <<"D1", "D2", "D3", "CS1", "CS2">>,
      grp |-> [D1 |-> "G", D2 |-> "G", D3 |-> "", CS1 |-> "", CS2 |-> ""],
      size |-> [D1 |-> 4, D2 |-> 5, D3 |-> 16, CS1 |-> 4, CS2 |-> 4]]
A1(r, v) == [op |-> "assume", ps |-> <<<<r, v>>>>]
Alphabet == {A1(r, v) : r \in {"ds", "es", "ss"}, v \in {"D1", "D2", "G", "NOTHING", "ERROR"}}
            \cup {[op |-> "nothing"], A1("cs", "G"), A1("fs", "D3"),
                  [op |-> "assume", ps |-> <<<<"ds", "D1">>, <<"es", "G">>>>], [op |-> "assume", ps |-> <<<<"es", "ds">>>>]}
X(i, ov, b, seg) == [op |-> "acc", x |-> [ins |-> i, use |-> 16, ov |-> ov, base |-> b, idx |-> "", sc |-> 0, seg |-> seg, off |-> IF seg = "" THEN 3 ELSE 1, at |-> 1]]
Uses == << X("inc", "", "", "D1"), X("ldal", "", "bx", "D2"), X("inc", "", "bp", "D1"), X("ldcl", "", "", "D3"), X("inc", "", "", "CS1"),
           X("inc", "es", "", "D1"), X("imm", "ds", "bp", "D2"), X("inc", "G", "", "D1"), X("inc", "D1", "bp", "D1"), X("ldcl", "", "bx", ""), X("ldcl", "es", "bx", ""),
           X("lea", "", "", "D2") >>
Before == << [op |-> "seg", n |-> "CS1"] >>
Run(st, ss, pc) == FoldLeft(LAMBDA a, S : [s |-> Step(a.s, S, a.pc), pc |-> a.pc + 1], [s |-> st, pc |-> pc], ss)
Init == prog = Before /\ n = 0 /\ s = Run(Start(H), Before, 1).s
Next == n < K /\ \E S \in Alphabet : prog' = prog \o <<S>> \o Uses /\ s' = TLCEval(Run(s, <<S>> \o Uses, Len(prog) + 1).s) /\ n' = n + 1
----
\* told from the history: the statements, last first
Hist == [k \in 1..n |-> prog[Len(Before) + (n - k) * (Len(Uses) + 1) + 1]]
Says(S, r) == IF S.op = "nothing" THEN {"NOTHING"} ELSE {S.ps[k][2] : k \in {j \in DOMAIN S.ps : S.ps[j][1] = r}}
RECURSIVE Holds(_, _)
Holds(r, k) == IF k > n THEN (IF r = "cs" THEN "CS1" ELSE "NOTHING")
               ELSE IF Says(Hist[k], r) = {} THEN Holds(r, k + 1)
               ELSE LET v == CHOOSE v \in Says(Hist[k], r) : TRUE IN
                    IF v = "ds" THEN (IF Holds("ds", k + 1) = "ERROR" THEN "NOTHING" ELSE Holds("ds", k + 1)) ELSE v
Table == \A r \in SegRegs : s.set.assumes.seg[r] = Holds(r, 1)
A == s.set.assumes.seg
Names(seg) == {seg, H.grp[seg]} \ {""}
Chosen == \A k \in DOMAIN Uses : LET x == Uses[k].x  a == Address(A, H.grp, x)  d == IF x.base = "bp" THEN "ss" ELSE "ds" IN
  x.ins # "lea" =>
  /\ x.seg # "" /\ x.ov = "" =>
       /\ (a[1] = "error") = (\A r \in SegRegs : A[r] \notin Names(x.seg))
       /\ (a[1] = "ok" /\ a[2] = "") = (A[d] \in Names(x.seg))
       /\ a[1] = "ok" => A[a[3]] \in Names(x.seg)
       \* a register that holds just this segment is preferred to one that holds the group
       /\ (a[2] # "" /\ \E r \in SegRegs : A[r] = x.seg) => A[a[2]] = x.seg
  /\ x.ov \in SegRegs => IF A[x.ov] = "ERROR" THEN a[1] = "error" ELSE a[3] = x.ov /\ a[2] = IF x.ov = d THEN "" ELSE x.ov
  /\ x.ov \notin SegRegs \cup {""} => IF \E r \in SegRegs : A[r] = x.ov THEN a[1] = "ok" /\ A[a[3]] = x.ov ELSE a[1] = "error"
Inv == Table /\ Chosen /\ (n = K => PrintT(<<"@S", 0, ToJson([h |-> H, prog |-> prog \o <<[op |-> "ends", n |-> "CS1"]>>, v |-> Verdict(s)])>>))
=============================================================================
