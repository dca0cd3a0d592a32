------------------------------ MODULE Linker ------------------------------
(* What a linker makes of an object file, by the rules of the COFF and ELF    *)
(* specifications: with sections placed at chosen addresses and undefined      *)
(* symbols given chosen ones, the bytes of every section.                      *)
(*   obj.fmt   "coff32" "coff64" "elf32" "elf64"                               *)
(*   obj.secs  <<[name, size, data, rel |-> <<[off, t, sym, add]>>]>>          *)
(*   obj.syms  <<[name, sec, val, g, sz]>>; sec 0 undefined, -1 absolute,      *)
(*             -2 common; g 1: visible to other modules                        *)
(*   pl.secs   addresses (8 bytes) of the sections; pl.img: of the image       *)
(*   ext       a function: address of an undefined or common symbol's name     *)
(* Addresses are sequences of 8 bytes, the lowest first                        *)
EXTENDS Wide, Integers, Sequences, SequencesExt, FiniteSets, TLC
(* n: bytes of the field; k: abs, pc (relative to the field + adj), img, sec (relative to the symbol's section), no (number of the section) *)
RD(n, k, adj) == [n |-> n, k |-> k, adj |-> adj]
Unknown == RD(0, "?", 0)
RelDef(fmt, t) ==
    CASE fmt = "coff64" ->
           (CASE t = 1 -> RD(8, "abs", 0) [] t = 2 -> RD(4, "abs", 0) [] t = 3 -> RD(4, "img", 0)
              [] t \in 4..9 -> RD(4, "pc", t) [] t = 10 -> RD(2, "no", 0) [] t = 11 -> RD(4, "sec", 0) [] OTHER -> Unknown)
      [] fmt = "coff32" ->
           (CASE t = 6 -> RD(4, "abs", 0) [] t = 7 -> RD(4, "img", 0) [] t = 20 -> RD(4, "pc", 4) [] t = 10 -> RD(2, "no", 0)
              [] t = 11 -> RD(4, "sec", 0) [] t = 1 -> RD(2, "abs", 0) [] t = 2 -> RD(2, "pc", 2) [] OTHER -> Unknown)
      [] fmt = "elf64" ->
           (CASE t = 1 -> RD(8, "abs", 0) [] t = 2 -> RD(4, "pc", 0) [] t \in {10, 11} -> RD(4, "abs", 0) [] t = 12 -> RD(2, "abs", 0)
              [] t = 13 -> RD(2, "pc", 0) [] t = 14 -> RD(1, "abs", 0) [] t = 15 -> RD(1, "pc", 0) [] t = 24 -> RD(8, "pc", 0) [] OTHER -> Unknown)
      [] OTHER ->
           (CASE t = 1 -> RD(4, "abs", 0) [] t = 2 -> RD(4, "pc", 0) [] t = 20 -> RD(2, "abs", 0) [] t = 21 -> RD(2, "pc", 0)
              [] t = 22 -> RD(1, "abs", 0) [] t = 23 -> RD(1, "pc", 0) [] OTHER -> Unknown)
SymAddr(obj, pl, ext, n) ==
    LET s == obj.syms[n] IN
    IF s.sec > 0 THEN WAdd(pl.secs[s.sec], s.val) ELSE IF s.sec = -1 THEN s.val ELSE ext[s.name]
\* a relocation that no linker can carry out
RelErr(obj, ext, q, r) ==
    LET d == RelDef(obj.fmt, r.t) IN
    IF d.k = "?" THEN "relocation type " \o ToString(r.t)
    ELSE IF r.sym \notin 1..Len(obj.syms) THEN "relocation of symbol " \o ToString(r.sym)
    ELSE IF r.off < 0 \/ r.off + d.n > Len(obj.secs[q].data) THEN "relocation outside of the section"
    ELSE IF obj.syms[r.sym].sec \in {0, -2} /\ obj.syms[r.sym].name \notin DOMAIN ext THEN "undefined symbol " \o obj.syms[r.sym].name
    ELSE IF obj.syms[r.sym].sec <= 0 /\ d.k \in {"sec", "no"} THEN "section of an undefined symbol" ELSE ""
Field(obj, pl, ext, q, r) ==
    LET d == RelDef(obj.fmt, r.t)
        A == IF obj.fmt = "elf64" THEN r.add ELSE Ext(SubSeq(obj.secs[q].data, r.off + 1, r.off + d.n), 8)
        S == SymAddr(obj, pl, ext, r.sym)
        P == WAdd(pl.secs[q], Small(r.off + d.adj, 8))
    IN CASE d.k = "abs" -> WAdd(S, A)
         [] d.k = "pc" -> WSub(WAdd(S, A), P)
         [] d.k = "img" -> WSub(WAdd(S, A), pl.img)
         [] d.k = "sec" -> WSub(WAdd(S, A), pl.secs[obj.syms[r.sym].sec])
         [] OTHER -> Small(obj.syms[r.sym].sec, 8)
\* the section's bytes in the image
Linked(obj, pl, ext, q) ==
    FoldLeft(LAMBDA d, r : LET n == RelDef(obj.fmt, r.t).n  f == TLCEval(Field(obj, pl, ext, q, r))
                           IN TLCEval([k \in 1..Len(d) |-> IF k > r.off /\ k <= r.off + n THEN f[k - r.off] ELSE d[k]]),
             obj.secs[q].data, obj.secs[q].rel)
\* no two relocations of a section touch the same byte
Overlap(obj, q) == LET R == obj.secs[q].rel IN
    \E a, b \in 1..Len(R) : a < b /\ LET x == RelDef(obj.fmt, R[a].t).n  y == RelDef(obj.fmt, R[b].t).n IN R[a].off < R[b].off + y /\ R[b].off < R[a].off + x
=============================================================================
