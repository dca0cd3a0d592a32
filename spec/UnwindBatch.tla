---------------------------- MODULE UnwindBatch ----------------------------
(* Given objects (environment CASES): every procedure of the object is run on  *)
(* the machine, and unwound with the object's records before every            *)
(* instruction, up to its first INT 3 (where its epilogue starts).            *)
(*   codes <<[b bytes with padding, len]>> of the code sections               *)
(*   x     bytes of .xdata; xrel <<[at, n]>> symbols its relocations name      *)
(*   fn    <<[sec, b, e, u, tab, ok]>> function entries in their order         *)
(*   procs <<[sec, b, e, frame, hand, mach, n]>>; r, v  start registers        *)
EXTENDS Unwind, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, j, m, out, n
vars == <<i, j, m, out, n>>
C == Cases[i]
Back == 7654321
Entry(c, p) ==
    LET s == StackTop - 4096 - 8
        m0 == [Start(64, p.b) EXCEPT !.f.u = TRUE, !.room = 1000000, !.r = [k \in 1..16 |-> IF k = 5 THEN Num(s) ELSE c.r[k]], !.x = c.v, !.lo = s]
        \* a machine frame: (error code,) rip, cs, eflags, rsp, ss
    IN IF p.mach = 0 THEN Store(m0, s, Num(Back))
       ELSE Store(Store(Store(m0, s, Num(99)), s + 8 * (p.mach - 1), Num(Back)), s + 8 * (p.mach - 1) + 24, Num(StackTop - 512))
CallerSP(p) == IF p.mach = 0 THEN StackTop - 4096 ELSE StackTop - 512
EntriesOf(c, p) == {k \in 1..Len(c.fn) : c.fn[k].sec = p.sec /\ c.fn[k].b < p.e /\ c.fn[k].e > p.b}
\* what has to hold of the tables
TableErr(c) ==
    LET F == c.fn  fp == {k \in 1..Len(c.procs) : c.procs[k].frame = 1}
        E(k) == CHOOSE q \in EntriesOf(c, c.procs[k]) : TRUE
        hand == {k \in fp : c.procs[k].hand # ""}
    IN CASE \E k \in 1..Len(F) : F[k].ok = 0 -> "an entry's relocations"
         [] \E k \in 1..Len(c.procs) : Cardinality(EntriesOf(c, c.procs[k])) # c.procs[k].frame -> "number of entries of " \o c.procs[CHOOSE k \in 1..Len(c.procs) : Cardinality(EntriesOf(c, c.procs[k])) # c.procs[k].frame].n
         [] Len(F) # Cardinality(fp) -> "number of entries"
         [] \E k \in fp : F[E(k)].b # c.procs[k].b \/ F[E(k)].e # c.procs[k].e -> "range of " \o c.procs[CHOOSE k \in fp : F[E(k)].b # c.procs[k].b \/ F[E(k)].e # c.procs[k].e].n
         [] \E k \in 1..Len(F) - 1 : F[k].tab = F[k + 1].tab /\ F[k].sec = F[k + 1].sec /\ F[k].b >= F[k + 1].b -> "order of the entries"
         [] \E k \in 1..Len(F) : F[k].u + 4 > Len(c.x) \/ F[k].u + RecordSize(c.x, F[k].u) > Len(c.x) -> "record outside .xdata"
         [] \E k \in 1..Len(F) : ~WellFormed(c.x, F[k].u) -> "record of " \o ToString(F[CHOOSE k \in 1..Len(F) : ~WellFormed(c.x, F[k].u)].b)
         [] \E k, q \in 1..Len(F) : k # q /\ F[k].u <= F[q].u /\ F[q].u < F[k].u + RecordSize(c.x, F[k].u) -> "records overlap"
         [] \E k \in fp : Flags(c.x, F[E(k)].u) # (IF k \in hand THEN 3 ELSE 0) -> "flags"
         [] {<<c.xrel[k].at, c.xrel[k].n>> : k \in 1..Len(c.xrel)} # {<<F[E(k)].u + RecordSize(c.x, F[E(k)].u) - 4, c.procs[k].hand>> : k \in hand} -> "handlers"
         [] OTHER -> ""
Init == /\ i \in 1..Len(Cases)
        /\ j = 1 /\ n = 0
        /\ m = Entry(C, C.procs[1])
        /\ out = LET e == TLCEval(TableErr(C)) IN IF e = "" THEN "" ELSE "!" \o e
P == C.procs[j]
Code == C.codes[P.sec].b
Inside == m.ip >= P.b /\ m.ip < P.e
Rec == C.fn[CHOOSE q \in EntriesOf(C, P) : TRUE].u
Err == IF P.frame = 0 \/ ~Inside THEN "" ELSE Lost(m, Entry(C, P), Back, CallerSP(P), Code, C.x, Rec, m.ip - P.b)
NextProc == IF j = Len(C.procs) THEN out' = "ok" /\ j' = j /\ m' = m
            ELSE out' = "" /\ j' = j + 1 /\ m' = TLCEval(Entry(C, C.procs[j + 1]))
Next == /\ out = ""
        /\ i' = i
        /\ IF P.frame = 0 THEN NextProc /\ n' = n
           ELSE LET e == TLCEval(Err)
                    b == TLCEval(StepM(m, Code, C.codes[P.sec].len, 64))
                IN IF e # "" THEN out' = "!" \o P.n \o "+" \o ToString(m.ip - P.b) \o ": " \o e \o " not recovered" /\ n' = n + 1 /\ UNCHANGED <<j, m>>
                   ELSE IF b.st = "int" THEN NextProc /\ n' = n + 1
                   ELSE IF b.st # "run" \/ n > 2000 THEN out' = "!" \o P.n \o "+" \o ToString(m.ip - P.b) \o ": " \o b.st \o " " \o ToString(b.v) /\ n' = n /\ UNCHANGED <<j, m>>
                   ELSE m' = b /\ n' = n + 1 /\ UNCHANGED <<j, out>>
Inv == out # "" => PrintT(<<"@V", i, ToJson([o |-> out, n |-> n])>>)
=============================================================================
