----------------------------- MODULE StructBatch -----------------------------
(* Programs that declare types and define instances, run statement by         *)
(* statement:                                                                 *)
(*   open u al | sub name u | close | field name es kind text                 *)
(*   tfield name type arr items | align n | org n                             *)
(*   record name fields                                                       *)
(*   inst name type member items    (data of that type at the label name)     *)
(*   ask what type/label path       (data, or a field of an instruction       *)
(*                                  between the bytes pre and post)           *)
EXTENDS Struct, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, pc, st, typ, lab, img, errs, open
vars == <<i, pc, st, typ, lab, img, errs, open>>
C == [rx |-> 10, bits |-> 32, sym |-> [x \in {} |-> <<>>]]
None == [x \in {} |-> <<>>]
Init == i \in 1..Len(Cases) /\ pc = 1 /\ st = <<>> /\ typ = None /\ lab = None /\ img = <<>> /\ errs = {} /\ open = FALSE
Top == st[Len(st)]
Put(x) == st' = [st EXCEPT ![Len(st)] = x]
Wrong == errs' = errs \cup {pc}
F0 == [name |-> "", off |-> 0, es |-> 0, n |-> 1, size |-> 0, t |-> <<>>, arr |-> FALSE, pad |-> 0, kind |-> "int", sub |-> FALSE, def |-> <<>>]
Quoted(t) == Ch(t, 1) \in {"'", "\""}
S == Cases[i].stmts[pc]
Dup(n) == n # "" /\ n \in Names(Top.fields)
Decl ==
  \/ S.op = "open" /\ st' = <<NewType(S.u, S.al) @@ [name |-> S.name]>> /\ UNCHANGED <<errs, open, typ>>
  \/ S.op = "sub" /\ st' = Append(st, NewType(S.u, Top.al) @@ [name |-> S.name]) /\ UNCHANGED <<errs, open, typ>>
  \/ /\ S.op = "close" /\ UNCHANGED typ
     /\ LET t == Finish(Top) IN
        IF Len(st) = 1 THEN st' = <<>> /\ UNCHANGED <<errs, open>>
        ELSE LET up == st[Len(st) - 1] IN
             st' = [SubSeq(st, 1, Len(st) - 1) EXCEPT ![Len(st) - 1] =
                     Add(@, [F0 EXCEPT !.name = Top.name, !.es = t.size, !.size = t.size, !.t = <<t>>, !.sub = TRUE], t.mm)]
             /\ UNCHANGED errs /\ open' = (open \/ t.org \/ (Top.name # "" /\ Top.name \in Names(up.fields)))
  \/ /\ S.op = "field" /\ UNCHANGED typ
     /\ LET x == Define(S.text, C, S.n, S.kind) IN
        IF Dup(S.name) THEN Wrong /\ UNCHANGED <<st, open>>
        ELSE IF ~x.ok THEN open' = TRUE /\ UNCHANGED <<st, errs>>
        ELSE Put(Add(Top, [F0 EXCEPT !.name = S.name, !.es = S.n, !.n = x.n, !.size = Len(x.b), !.def = x.b, !.kind = S.kind,
                             !.arr = S.arr, !.pad = IF S.n = 1 /\ Quoted(S.text) THEN 32 ELSE 0], S.n))
             /\ UNCHANGED <<errs, open>>
  \/ /\ S.op = "tfield" /\ UNCHANGED typ
     /\ LET t == typ[S.type]  x == Items(t, S.items, C) IN
        IF Dup(S.name) THEN Wrong /\ UNCHANGED <<st, open>>
        ELSE IF ~x.ok THEN open' = TRUE /\ UNCHANGED <<st, errs>>
        ELSE Put(Add(Top, [F0 EXCEPT !.name = S.name, !.es = t.size, !.n = Len(x.b) \div Most(t.size, 1), !.size = Len(x.b), !.def = x.b,
                             !.t = <<t>>, !.arr = S.arr], t.mm))
             /\ UNCHANGED <<errs, open>>
  \/ S.op = "align" /\ Put(AlignIn(Top, S.n)) /\ UNCHANGED <<errs, open, typ>>
  \/ S.op = "org" /\ Put(OrgIn(Top, S.n)) /\ UNCHANGED <<errs, open, typ>>
Emit(b) == img' = TLCEval(img \o b)
Num(v, n) == SubSeq(Ext(Small(v, 4), 8), 1, n)
Use ==
  \/ /\ S.op = "record" /\ UNCHANGED <<st, errs, open, img, lab>>
     /\ typ' = (S.name :> Record([k \in 1..Len(S.fields) |->
                  [name |-> S.fields[k].name, off |-> 0, size |-> S.fields[k].size, def |-> Define(S.fields[k].def, C, 16, "int").b, t |-> <<>>]])) @@ typ
  \/ /\ S.op = "inst" /\ UNCHANGED <<st, typ>>
     /\ LET t == IF S.member = "" THEN typ[S.type] ELSE Choose1(typ[S.type], S.member)
            x == Items(t, S.items, C) IN
        IF t.org THEN Wrong /\ UNCHANGED <<open, img, lab>>
        ELSE IF ~x.ok THEN (IF x.why = "open" THEN open' = TRUE /\ UNCHANGED <<errs, img, lab>> ELSE Wrong /\ UNCHANGED <<open, img, lab>>)
        ELSE Emit(x.b) /\ lab' = (S.name :> [at |-> Len(img), t |-> typ[S.type], n |-> Len(x.b) \div Most(t.size, 1), size |-> Len(x.b)]) @@ lab
             /\ UNCHANGED <<errs, open>>
  \* what: "size" of a type; path of a type, or of a label: off, fsize, flen, ftype; bits: mask, width, shift
  \/ /\ S.op = "ask" /\ UNCHANGED <<st, typ, lab>>
     /\ IF S.of \notin DOMAIN typ /\ S.of \notin DOMAIN lab THEN open' = TRUE /\ UNCHANGED <<errs, img>>
        ELSE LET islab == S.of \in DOMAIN lab
                 t == IF islab THEN lab[S.of].t ELSE typ[S.of]
                 r == IF S.path = <<>> THEN <<0, F0>> ELSE Path(t, S.path)
                 base == IF islab THEN lab[S.of].at ELSE 0
             IN IF r = <<>> THEN Wrong /\ UNCHANGED <<open, img>>
                ELSE /\ UNCHANGED <<errs, open>>
                     /\ Emit(S.pre \o (CASE S.what = "off" -> Num(base + r[1] + S.add, S.n)
                               [] S.what = "size" -> Num(IF S.path # <<>> THEN r[2].size ELSE IF islab THEN lab[S.of].size ELSE t.size, S.n)
                               [] S.what = "type" -> Num(IF S.path # <<>> THEN r[2].es ELSE t.size, S.n)
                               [] S.what = "len" -> Num(IF S.path # <<>> THEN r[2].n ELSE lab[S.of].n, S.n)
                               [] S.what = "mask" -> SubSeq(IF S.path = <<>> THEN WSub(WShl(Small(1, 16), t.bits), Small(1, 16)) ELSE Mask(r[2]), 1, S.n)
                               [] S.what = "width" -> Num(IF S.path = <<>> THEN t.bits ELSE r[2].size, S.n)
                               [] S.what = "shift" -> Num(r[2].off, S.n)) \o S.post)
Outer == S.op = "close" /\ Len(st) = 1
Step ==
  IF S.op \in {"open", "sub", "close", "field", "tfield", "align", "org"} THEN
     /\ UNCHANGED <<img, lab>>
     /\ IF Outer THEN st' = <<>> /\ typ' = (Top.name :> Finish(Top)) @@ typ /\ UNCHANGED <<errs, open>>
        ELSE Decl
  ELSE Use
Next == ~open /\ pc <= Len(Cases[i].stmts) /\ Step /\ pc' = pc + 1 /\ i' = i
\* whatever is declared: in a structure without ORG, fields do not overlap and lie inside
Apart == \A n \in DOMAIN typ : (typ[n].kind = "struct" /\ ~typ[n].org) =>
  \A k \in 1..Len(typ[n].fields) : LET f == typ[n].fields[k] IN
     f.off + f.size <= (IF k = Len(typ[n].fields) THEN typ[n].size ELSE typ[n].fields[k + 1].off)
BitsApart == \A n \in DOMAIN typ : typ[n].kind = "record" =>
  FoldLeft(LAMBDA a, f : WAdd(a, Mask(f)), Zero(16), typ[n].fields) = WSub(WShl(Small(1, 16), typ[n].bits), Small(1, 16))
Report == (open \/ pc > Len(Cases[i].stmts)) => PrintT(<<"@V", i, ToJson([img |-> img, errs |-> errs, open |-> open])>>)
Inv == Report /\ Apart /\ BitsApart
=============================================================================
