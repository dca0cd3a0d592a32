----------------------------- MODULE ObjBatch -----------------------------
(* Given modules with the object files the assembler made of them (environment *)
(* CASES): does the linked object equal the module's meaning (o), and does its  *)
(* symbol table say what the module declares (s)?                               *)
EXTENDS Objects, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, q, o, s
vars == <<i, q, o, s>>
C == Cases[i]
Init == i \in 1..Len(Cases) /\ q = 0 /\ o = "" /\ s = ""
Name(c, n) == Decor(c.dec, c.mode, c.p.decls[n])
SecOf(c, k) == {n \in 1..Len(c.obj.secs) : c.obj.secs[n].name = c.p.secs[k].name}
The(S) == CHOOSE x \in S : TRUE
Base(c) == [k \in 1..Len(c.p.secs) |-> IF SecOf(c, k) = {} THEN Zero(8) ELSE c.pl.secs[The(SecOf(c, k))]]
Far(c) == {n \in 1..Len(c.p.decls) : c.p.decls[n].kind # "label"}
Ext1(c) == [x \in {Name(c, n) : n \in Far(c)} |-> c.far[The({n \in Far(c) : Name(c, n) = x})]]
Diff(a, b) == CHOOSE k \in 1..Len(a) : a[k] # b[k] /\ \A j \in 1..k - 1 : a[j] = b[j]
ItemAt(c, k, at) == The({j \in 1..Len(c.p.secs[k].items) : Off(c.p.secs, k, j) < at /\ Off(c.p.secs, k, j + 1) >= at})
\* section k of the program
SecErr(c, k) ==
    LET P == c.p.secs[k]  ext == TLCEval(Ext1(c)) IN
    IF Len(P.items) = 0 THEN ""
    ELSE IF Cardinality(SecOf(c, k)) # 1 THEN ToString(Cardinality(SecOf(c, k))) \o " sections " \o P.name
    ELSE LET n == The(SecOf(c, k))  O == c.obj.secs[n]
             errs == {RelErr(c.obj, ext, n, O.rel[r]) : r \in 1..Len(O.rel)} \ {""}
         IN IF errs # {} THEN P.name \o ": " \o The(errs)
            ELSE IF Overlap(c.obj, n) THEN P.name \o ": two relocations of one byte"
            ELSE IF P.bss THEN (IF O.size # Off(c.p.secs, k, Len(P.items) + 1) THEN P.name \o ": size " \o ToString(O.size) ELSE "")
            ELSE LET want == TLCEval(Image(c.p, TLCEval(Base(c)), c.far, c.pl.img, k))
                     got == TLCEval(Linked(c.obj, c.pl, ext, n))
                 IN IF Len(got) # Len(want) THEN P.name \o ": " \o ToString(Len(got)) \o " bytes, expected " \o ToString(Len(want))
                    ELSE IF got = want THEN ""
                    ELSE LET at == Diff(want, got)  j == ItemAt(c, k, at) IN
                         P.name \o " item " \o ToString(j) \o ": " \o ToString(SubSeq(got, Off(c.p.secs, k, j) + 1, Off(c.p.secs, k, j + 1)))
                           \o ", expected " \o ToString(SubSeq(want, Off(c.p.secs, k, j) + 1, Off(c.p.secs, k, j + 1)))
SymErr(c) ==
    LET glob == {n \in 1..Len(c.obj.syms) : c.obj.syms[n].g = 1}
        vis == {n \in 1..Len(c.p.decls) : Visible(c.p, n)}
        want == {Name(c, n) : n \in vis}
        have == {c.obj.syms[n].name : n \in glob}
        twice == {x \in have : Cardinality({n \in glob : c.obj.syms[n].name = x}) > 1}
        bad(n) == LET d == c.p.decls[n]  y == c.obj.syms[The({y \in glob : c.obj.syms[y].name = Name(c, n)})] IN
            CASE d.kind = "label" -> ~(y.sec > 0 /\ y.sec \in SecOf(c, d.sec) /\ y.val = Small(Off(c.p.secs, d.sec, d.item), 8))
              [] d.kind = "abs" -> ~(y.sec = -1 /\ y.val = d.val)
              [] d.kind = "comm" -> ~(y.sec = -2 /\ y.sz = d.sz /\ (c.obj.fmt \in {"elf32", "elf64"} => y.val[1] >= d.al))
              [] d.kind = "weak" -> ~(y.sec = 0 /\ y.w = 1 /\ (c.obj.fmt \in {"coff32", "coff64"} => y.alt > 0 /\ c.obj.syms[y.alt].name = Name(c, d.alt)))
              [] OTHER -> y.sec # 0 \/ y.w # 0
    IN IF want \ have # {} THEN "missing " \o ToString(want \ have)
       ELSE IF have \ want # {} THEN "surplus " \o ToString(have \ want)
       ELSE IF twice # {} THEN "more than once " \o ToString(twice)
       ELSE LET w == {n \in vis : bad(n)} IN IF w # {} THEN "wrong " \o ToString({Name(c, n) : n \in w}) ELSE ""
Next == /\ q <= Len(C.p.secs)
        /\ q' = q + 1 /\ i' = i
        /\ s' = IF q = 0 THEN SymErr(C) ELSE s
        /\ o' = IF q = 0 \/ o # "" THEN o ELSE SecErr(C, q)
Inv == q = Len(C.p.secs) + 1 => PrintT(<<"@V", i, ToJson([o |-> o, s |-> s])>>)
=============================================================================
