------------------------------ MODULE Objects ------------------------------
(* A module by its source: sections made of items, declared symbols, and what *)
(* both mean for the image and for other modules.                              *)
(*   secs   <<[name, items, bss]>>; an item: [b bytes in front of the field,   *)
(*          n bytes of the field (0: none), k "abs" "rel" "img" "sec", t the    *)
(*          declaration referred to (0: the item's own start), add, post]       *)
(*   decls  <<[n, up (in capitals), lang, proc, par (bytes of parameters),      *)
(*          kind "label" "extern" "weak" (with alt, its default) "externdef"   *)
(*          "proto" "comm" (with al, its alignment) "abs", sec, item, pub,      *)
(*          sz, used, val]>>                                                      *)
(*   dec    [c, std] decorations in force ("on"/"off"; "full" "half" "none")    *)
EXTENDS Linker
ItemLen(x) == Len(x.b) + x.n + Len(x.post)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Off(secs, q, j) == Sum([i \in 1..j - 1 |-> ItemLen(secs[q].items[i])])
Decor(dec, mode, d) ==
    CASE d.lang = "c" -> IF dec.c = "off" THEN d.n ELSE "_" \o d.n
      [] d.lang = "stdcall" -> IF dec.std = "none" THEN d.n ELSE IF dec.std = "full" /\ d.proc THEN "_" \o d.n \o "@" \o ToString(d.par) ELSE "_" \o d.n
      [] d.lang \in {"pascal", "basic", "fortran"} -> d.up
      [] d.lang = "fastcall" -> IF mode = 32 /\ d.proc THEN "@" \o d.n \o "@" \o ToString(d.par) ELSE d.n
      [] OTHER -> d.n
Here(secs, base, d) == WAdd(base[d.sec], Small(Off(secs, d.sec, d.item), 8))
\* base: addresses of the sections; far: of the declarations that are not labels
Address(p, base, far, d) == IF p.decls[d].kind = "label" THEN Here(p.secs, base, p.decls[d]) ELSE far[d]
FieldMeaning(p, base, far, img, q, j) ==
    LET x == p.secs[q].items[j]
        at == TLCEval(WAdd(base[q], Small(Off(p.secs, q, j), 8)))
        S == WAdd(IF x.t = 0 THEN at ELSE Address(p, base, far, x.t), Small(x.add, 8))
    IN CASE x.k = "abs" -> S
         [] x.k = "rel" -> WSub(S, WAdd(at, Small(ItemLen(x), 8)))
         [] x.k = "img" -> WSub(S, img)
         [] OTHER -> WSub(S, base[IF x.t = 0 THEN q ELSE p.decls[x.t].sec])
ItemBytes(p, base, far, img, q, j) ==
    LET x == p.secs[q].items[j] IN x.b \o (IF x.n = 0 THEN <<>> ELSE SubSeq(FieldMeaning(p, base, far, img, q, j), 1, x.n)) \o x.post
Image(p, base, far, img, q) == FoldLeft(LAMBDA s, j : s \o ItemBytes(p, base, far, img, q, j), <<>>, [j \in 1..Len(p.secs[q].items) |-> j])
\* ---- symbols
Used(p, n) == p.decls[n].used \/ \E q \in 1..Len(p.secs) : \E j \in 1..Len(p.secs[q].items) : LET x == p.secs[q].items[j] IN x.n > 0 /\ x.t = n
Visible(p, n) == LET d == p.decls[n] IN CASE d.kind = "label" -> d.pub [] d.kind \in {"extern", "weak", "comm", "abs"} -> TRUE [] OTHER -> Used(p, n)
=============================================================================
