------------------------------- MODULE Struct -------------------------------
(* Structures, unions, records: layout, and the bytes of instances.          *)
(* A declaration is executed statement by statement on a stack of open       *)
(* structures; a finished type is                                            *)
(*   [kind |-> "struct" | "union" | "record", al, mm, size, org, fields]     *)
(*   field: [name, off, es, n, size, t, def, arr, pad, sub]                  *)
(*     es, n   size and number of elements     t   <<type>> of a typed field *)
(*     def     bytes in an instance that gives no value                      *)
(*     pad     filler behind a list that is too short                        *)
(*   record fields: [name, off (lowest bit), size (bits), def (16 bytes)]    *)
EXTENDS Data, SequencesExt

AlignUp(o, a) == ((o + a - 1) \div a) * a
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a

\* ------------------------------------------------------------- declaration
NewType(un, al) == [kind |-> IF un THEN "union" ELSE "struct", al |-> al, off |-> 0, size |-> 0, mm |-> 0, org |-> FALSE, lo |-> 0, fields |-> <<>>]
\* names visible in a type: of its fields and those of anonymous structures
RECURSIVE Names(_)
Names(fs) == UNION {IF fs[k].name # "" THEN {fs[k].name} ELSE IF fs[k].t = <<>> THEN {} ELSE Names(fs[k].t[1].fields) : k \in 1..Len(fs)}
\* s: open type; f: field without offset; msize: size that counts for the alignment
Add(s, f, msize) ==
  LET o == IF s.al > 1 /\ msize > 0 THEN AlignUp(s.off, Least(s.al, msize)) ELSE s.off
      g == [f EXCEPT !.off = o]
  IN [s EXCEPT !.fields = Append(@, g), !.mm = Most(@, msize), !.lo = Least(@, o),
      !.off = IF s.kind = "union" THEN 0 ELSE o + f.size,
      !.size = Most(@, IF s.kind = "union" THEN f.size ELSE o + f.size)]
AlignIn(s, n) == IF s.kind = "union" THEN s ELSE LET o == AlignUp(s.off, n) IN [s EXCEPT !.off = o, !.size = Most(@, o)]
OrgIn(s, o) == [s EXCEPT !.off = o, !.size = Most(@, o), !.org = TRUE]
Finish(s) ==
  LET a == Least(s.al, Most(s.mm, 1)) IN
  [kind |-> s.kind, al |-> s.al, mm |-> s.mm, size |-> IF s.al > 1 THEN AlignUp(s.size - s.lo, a) ELSE s.size - s.lo, org |-> s.org, fields |-> s.fields]

\* fields f: <<[name, size, def]>> in declared order
Record(fs) ==
  LET total == FoldLeft(LAMBDA a, f : f.size + a, 0, fs)
      Below(k) == FoldLeft(LAMBDA a, f : f.size + a, 0, SubSeq(fs, k + 1, Len(fs)))
      bytes == CASE total <= 8 -> 1 [] total <= 16 -> 2 [] total <= 32 -> 4 [] total <= 64 -> 8 [] OTHER -> 16
  IN [kind |-> "record", al |-> 1, mm |-> bytes, size |-> bytes, org |-> FALSE, bits |-> total,
      fields |-> [k \in 1..Len(fs) |-> [fs[k] EXCEPT !.off = Below(k)]]]
Mask(f) == WShl(WSub(WShl(Small(1, 16), f.size), Small(1, 16)), f.off)

\* ------------------------------------------------------------- instances
\* initialisers: [k |-> "def"] | [k |-> "text", t] | [k |-> "list", i] with i a sequence of initialisers
Ok(b) == [ok |-> TRUE, why |-> "", b |-> b]
No(w) == [ok |-> FALSE, why |-> w, b |-> <<>>]
Def == [k |-> "def"]
RECURSIVE Image(_, _, _)
RECURSIVE Items(_, _, _)
RECURSIVE Fields(_, _, _, _)
Value(f, I, C) ==
  IF I.k = "def" THEN (IF f.t # <<>> /\ f.sub THEN Image(f.t[1], <<>>, C) ELSE Ok(f.def))
  ELSE IF f.t = <<>> THEN
    IF f.arr THEN
      LET x == Define(I.t, C, f.es, f.kind) IN
      IF ~x.ok THEN No(x.why)
      ELSE IF Len(x.b) > f.size THEN No("many")
      ELSE Ok(x.b \o [k \in 1..(f.size - Len(x.b)) |-> f.pad])
    ELSE LET x == Define(I.t, C, f.es, f.kind) IN
         IF ~x.ok THEN No(x.why) ELSE IF x.n # 1 THEN No("many") ELSE Ok(x.b)
  ELSE IF ~f.arr THEN Image(f.t[1], I.i, C)
  ELSE LET x == Items(f.t[1], I.i, C) IN
       IF ~x.ok THEN x
       ELSE IF Len(x.b) > f.size THEN No("many")
       ELSE Ok(x.b \o [k \in 1..(f.size - Len(x.b)) |-> 0])
\* elements of an array of structures
Items(t, es, C) ==
  IF es = <<>> THEN Ok(<<>>)
  ELSE LET e == es[1]
           x == IF e.k = "dup" THEN Items(t, e.i, C) ELSE IF e.k = "def" THEN Image(t, <<>>, C) ELSE Image(t, e.i, C)
           y == Items(t, Tail(es), C)
       IN IF ~x.ok THEN x ELSE IF ~y.ok THEN y
          ELSE Ok(TLCEval((IF e.k = "dup" THEN Repeat(x.b, e.n) ELSE x.b) \o y.b))
Fields(t, k, I, C) ==
  IF k > Len(t.fields) THEN Ok(<<>>)
  ELSE LET f == t.fields[k]
           x == Value(f, IF k <= Len(I) THEN I[k] ELSE Def, C)
           next == IF t.kind = "union" \/ k = Len(t.fields) THEN t.size ELSE t.fields[k + 1].off
           y == IF t.kind = "union" THEN Ok(<<>>) ELSE Fields(t, k + 1, I, C)
       IN IF ~x.ok THEN x ELSE IF ~y.ok THEN y
          ELSE Ok(TLCEval(x.b \o [j \in 1..(next - (f.off + f.size)) |-> 0] \o y.b))
\* a record: every value must fit its field
RecValue(f, I, C) ==
  IF I.k = "def" THEN [ok |-> TRUE, v |-> f.def]
  ELSE LET x == Define(I.t, C, 16, "int") IN [ok |-> x.ok, v |-> x.b]
Pack(t, I, C) ==
  LET X == [k \in 1..Len(t.fields) |-> RecValue(t.fields[k], IF k <= Len(I) THEN I[k] ELSE Def, C)]
      fits(k) == t.fields[k].size >= 128 \/ WShr(X[k].v, t.fields[k].size) = Zero(16)
  IN IF \E k \in DOMAIN X : ~X[k].ok THEN No("value")
     ELSE IF \E k \in DOMAIN X : ~fits(k) THEN No("fit")
     ELSE Ok(SubSeq(FoldLeft(LAMBDA a, k : WOr(a, WShl(X[k].v, t.fields[k].off)), Zero(16), [k \in DOMAIN X |-> k]), 1, t.size))
Image(t, I, C) ==
  IF Len(I) > (IF t.kind = "union" THEN Least(1, Len(t.fields)) ELSE Len(t.fields)) THEN No("many")
  ELSE IF t.kind = "record" THEN Pack(t, I, C)
  ELSE IF t.fields = <<>> THEN Ok(<<>>)
  ELSE IF t.kind = "struct" /\ t.fields[1].off > 0 THEN No("open")
  ELSE Fields(t, 1, I, C)
\* UNION.member: initialise that member
Choose1(t, m) == [t EXCEPT !.fields = SelectSeq(t.fields, LAMBDA f : f.name = m)]

\* ------------------------------------------------------------- the views
RECURSIVE FindIn(_, _)
\* position of a name: <<offset, field>>, <<>> if there is none
FindIn(t, n) ==
  LET hit == SelectSeq([k \in 1..Len(t.fields) |-> LET f == t.fields[k] IN
               IF f.name = n THEN <<f.off, f>>
               ELSE IF f.name = "" /\ f.t # <<>> THEN
                      LET r == FindIn(f.t[1], n) IN IF r = <<>> THEN <<>> ELSE <<f.off + r[1], r[2]>>
               ELSE <<>>], LAMBDA r : r # <<>>)
  IN IF hit = <<>> THEN <<>> ELSE hit[1]
RECURSIVE Path(_, _)
Path(t, p) ==
  LET r == FindIn(t, p[1]) IN
  IF r = <<>> THEN <<>>
  ELSE IF Len(p) = 1 THEN r
  ELSE IF r[2].t = <<>> THEN <<>>
  ELSE LET q == Path(r[2].t[1], Tail(p)) IN IF q = <<>> THEN <<>> ELSE <<r[1] + q[1], q[2]>>

\* leaves: <<absolute offset, element size, bytes by default>> of every scalar or array
RECURSIVE Leaves(_, _)
Leaves(t, base) ==
  FoldLeft(LAMBDA a, f : a \o (IF f.t = <<>> THEN << <<base + f.off, f.es, f.def>> >> ELSE Leaves(f.t[1], base + f.off)), <<>>, t.fields)
=============================================================================
