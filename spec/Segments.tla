------------------------------ MODULE Segments ------------------------------
(* Segments and their location counters, and the flat image made of them.    *)
(*                                                                           *)
(* A program is a sequence of statements, records with field op:             *)
(*   open s     SEGMENT (first time or reopened)   ends s     ENDS            *)
(*   simp s     .CODE .DATA ...: leaves the current segment, enters s         *)
(*   put v      items: sequence of                                           *)
(*                [k |-> "b", v |-> byte]       a given byte                  *)
(*                [k |-> "q", n |-> count]      ?: counter moves, no byte     *)
(*                [k |-> "r", w |-> bytes, e |-> expression]                  *)
(*   know s     the segment is created (by .MODEL or GROUP), not entered     *)
(*   leave      END with .MODEL closes the innermost segment                 *)
(*   lab n      a label at the counter                                       *)
(*   align n    org n (absolute)   orgrel d ($ + d)   orglab n d             *)
(* The segments are given by D: sequence of records                          *)
(*   [al |-> alignment, ty |-> type, g |-> group or 0, flat |-> BOOLEAN]      *)
(* in the order in which the program first mentions them.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CodeFill == -1   \* a byte of a filler in a code segment: any no-operation
Null == 0

InitSeg == [loc |-> 0, start |-> 0, max |-> 0, any |-> FALSE, run |-> FALSE]
InitSt(D) == [stk |-> <<>>, segs |-> [s \in DOMAIN D |-> InitSeg], labs |-> <<>>, puts |-> <<>>,
              order |-> <<>>, err |-> <<>>]

Cur(st) == IF st.stk = <<>> THEN Null ELSE st.stk[Len(st.stk)]
Hi(a, b) == IF a > b THEN a ELSE b
Lo(a, b) == IF a < b THEN a ELSE b
Up(n, a) == ((n + a - 1) \div a) * a

\* the counter moves without bytes
Skip(g, n) == [g EXCEPT !.loc = g.loc + n, !.max = Hi(g.max, g.loc + n), !.run = FALSE]
Goto(g, a) == [g EXCEPT !.loc = a, !.max = Hi(g.max, a), !.run = FALSE,
                        !.start = IF g.any THEN g.start ELSE a]
Emit(g, n) == [g EXCEPT !.loc = g.loc + n, !.max = Hi(g.max, g.loc + n), !.run = TRUE, !.any = TRUE,
                        !.start = Lo(g.start, g.loc)]

Err(st, ln, n) == [st EXCEPT !.err = Append(@, <<ln, n>>)]
Enter(st, s) == IF s \in ToSet(st.order) THEN st ELSE [st EXCEPT !.order = Append(@, s)]

RECURSIVE PutAll(_, _, _)
PutAll(st, items, k) ==
  IF k > Len(items) THEN st
  ELSE LET s == Cur(st)
           g == st.segs[s]
           it == items[k]
       IN IF it.k = "q" THEN PutAll([st EXCEPT !.segs[s] = Skip(g, it.n)], items, k + 1)
          ELSE LET w == IF it.k = "b" THEN 1 ELSE it.w
               IN PutAll([st EXCEPT !.segs[s] = Emit(g, w),
                                    !.puts = Append(@, [s |-> s, a |-> g.loc, w |-> w, it |-> it])], items, k + 1)

Fill(st, D, n) ==
  LET s == Cur(st)
      g == st.segs[s]
  IN IF n = 0 THEN st
     ELSE IF ~g.run THEN [st EXCEPT !.segs[s] = Skip(g, n)]
     ELSE [st EXCEPT !.segs[s] = Emit(g, n),
                     !.puts = Append(@, [s |-> s, a |-> g.loc, w |-> n,
                                         it |-> [k |-> IF D[s].ty = "code" THEN "nop" ELSE "zero"]])]

Lab(st, n) == CHOOSE l \in ToSet(st.labs) : l.n = n
HasLab(st, n) == \E l \in ToSet(st.labs) : l.n = n

Exec(st, D, x, ln) ==
  LET s == Cur(st) IN
  CASE x.op = "open" -> [Enter(st, x.s) EXCEPT !.stk = Append(@, x.s)]
    [] x.op = "ends" -> IF s = x.s THEN [st EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)] ELSE Err(st, ln, 2080)
    [] x.op = "simp" -> [Enter(st, x.s) EXCEPT !.stk = Append(IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1), x.s)]
    [] x.op = "know" -> Enter(st, x.s)
    [] x.op = "leave" -> [st EXCEPT !.stk = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
    [] s = Null -> Err(st, ln, 2082)
    [] x.op = "put" -> PutAll(st, x.v, 1)
    [] x.op = "lab" -> [st EXCEPT !.labs = Append(@, [n |-> x.n, s |-> s, a |-> st.segs[s].loc])]
    [] x.op = "align" -> Fill(st, D, Up(st.segs[s].loc, x.n) - st.segs[s].loc)
    [] x.op = "org" -> [st EXCEPT !.segs[s] = Goto(@, x.n)]
    [] x.op = "orgrel" -> [st EXCEPT !.segs[s] = Goto(@, @.loc + x.d)]
    [] x.op = "orglab" -> [st EXCEPT !.segs[s] = Goto(@, Lab(st, x.n).a + x.d)]

AtEnd(st, ln) == IF st.stk = <<>> THEN st ELSE Err(st, ln, 2080)

---------------------------------------------------------------------------
(* The image: segments in the order given by the segment-order directive,    *)
(* each at its alignment; what a segment skips before its first byte is not  *)
(* part of it. Segments at the end without bytes are left out.               *)
DosSeg == <<"code", "undef", "data", "bss", "stack">>
Rank(ty) == CHOOSE k \in DOMAIN DosSeg : DosSeg[k] = ty
InOrder(st, D, how) ==
  CASE how = "seq" -> st.order
    [] how = "dosseg" -> SortSeq(st.order, LAMBDA a, b : Rank(D[a].ty) < Rank(D[b].ty))
    [] how = "alpha" -> SortSeq(st.order, LAMBDA a, b : D[a].rank < D[b].rank)

\* [seg -> file offset, offset within group or image, begin]; gt: group -> size so far, ge: group -> end in file, go: where it starts
RECURSIVE Place(_, _, _, _, _)
Place(st, D, o, k, acc) ==
  IF k > Len(o) THEN acc
  ELSE LET s == o[k]
           g == st.segs[s]
           f == Up(acc.f, D[s].al)
           gr == D[s].g
           empty == gr # 0 /\ acc.gt[gr] = 0
           off == IF gr = 0 THEN f ELSE IF empty THEN 0 ELSE acc.gt[gr] + f - acc.ge[gr]
           b == IF k > 1 /\ gr # 0 /\ ~D[s].flat THEN 0 ELSE g.start
           n == f + g.max - b
       IN Place(st, D, o, k + 1,
            [f |-> n,
             at |-> [acc.at EXCEPT ![s] = [f |-> f, off |-> off, b |-> b, n |-> g.max - b]],
             gt |-> IF gr = 0 THEN acc.gt ELSE [acc.gt EXCEPT ![gr] = off + g.max],
             ge |-> IF gr = 0 THEN acc.ge ELSE [acc.ge EXCEPT ![gr] = n],
             go |-> IF empty THEN [acc.go EXCEPT ![gr] = f] ELSE acc.go])
Groups(D) == {D[s].g : s \in DOMAIN D} \ {0}
Layout(st, D, how) ==
  Place(st, D, InOrder(st, D, how), 1,
        [f |-> 0, at |-> [s \in DOMAIN D |-> [f |-> 0, off |-> 0, b |-> 0, n |-> 0]],
         gt |-> [x \in Groups(D) |-> 0], ge |-> [x \in Groups(D) |-> 0], go |-> [x \in Groups(D) |-> 0]])

\* segments in the file
InFile(st, D, how) ==
  LET o == InOrder(st, D, how)
      last == {k \in DOMAIN o : st.segs[o[k]].any}
  IN {o[k] : k \in {j \in DOMAIN o : \E e \in last : j <= e}}

\* the address that stands for offset a of segment s
Addr(L, D, s, a) ==
  LET p == L.at[s] IN
  IF D[s].g # 0 THEN ((L.go[D[s].g]) % 16) + p.off + a ELSE ((p.off) % 16) + a
SegAddr(L, D, s, a) == ((L.at[s].off) % 16) + a

Value(st, L, D, p) ==
  LET e == p.it.e
  IN CASE e.k = "lab" -> LET l == Lab(st, e.n) IN Addr(L, D, l.s, l.a) + e.d
       [] e.k = "here" -> Addr(L, D, p.s, p.a) + e.d
       [] e.k = "diff" -> Lab(st, e.n).a - Lab(st, e.m).a + e.d
       [] e.k = "since" -> p.a - Lab(st, e.n).a + e.d
       [] e.k = "seg" -> LET l == Lab(st, e.n) IN SegAddr(L, D, l.s, l.a) + e.d
Bytes(v, w) ==
  LET d(k) == CASE k = 1 -> 1 [] k = 2 -> 256 [] k = 3 -> 65536 [] k = 4 -> 16777216 [] OTHER -> 0
  IN [k \in 1..w |-> IF k > 4 THEN (IF v < 0 THEN 255 ELSE 0) ELSE (v \div d(k)) % 256]
Content(st, L, D, p) ==
  CASE p.it.k = "b" -> <<p.it.v>>
    [] p.it.k = "nop" -> [k \in 1..p.w |-> CodeFill]
    [] p.it.k = "zero" -> [k \in 1..p.w |-> 0]
    [] p.it.k = "r" -> Bytes(Value(st, L, D, p), p.w)

Covers(p, s, a) == p.s = s /\ p.a <= a /\ a < p.a + p.w
\* the last item put at a place is what stands there
\* A relocated field that other items overlap (ORG backwards) is left open.
Clash(st, p, a) == /\ \E q \in ToSet(st.puts) : Covers(q, p.s, a) /\ q.it.k = "r" /\ q.it.e.k \in {"lab", "here", "seg"}
                   /\ \E j, m \in DOMAIN st.puts : j < m /\ Covers(st.puts[j], p.s, a) /\ Covers(st.puts[m], p.s, a)
RECURSIVE Lay(_, _, _, _, _)
Lay(st, L, D, k, img) ==
  IF k > Len(st.puts) THEN img
  ELSE LET p == st.puts[k]
           c0 == Content(st, L, D, p)
           c == [j \in DOMAIN c0 |-> IF Clash(st, p, p.a + j - 1) THEN CodeFill ELSE c0[j]]
           at == L.at[p.s].f + p.a - L.at[p.s].b
       IN Lay(st, L, D, k + 1, [j \in DOMAIN img |-> IF at < j /\ j <= at + p.w THEN c[j - at] ELSE img[j]])
FileSize(st, D, how, L) ==
  LET S == InFile(st, D, how) IN IF S = {} THEN 0 ELSE LET z == {L.at[s].f + L.at[s].n : s \in S} IN CHOOSE m \in z : \A y \in z : y <= m
Image(st, D, how) ==
  LET L == Layout(st, D, how) IN Lay(st, L, D, 1, [j \in 1..FileSize(st, D, how, L) |-> 0])

---------------------------------------------------------------------------
(* What this means                                                           *)
\* the counter of a segment is where its last statement left it: other
\* segments' statements do not move it
Untouched(st, st2) == \A s \in DOMAIN st.segs : s \notin {Cur(st), Cur(st2)} => st2.segs[s] = st.segs[s]
\* consecutive items of a segment are adjacent unless the counter was moved
InBounds(st) == \A k \in DOMAIN st.puts : LET p == st.puts[k] IN
                   /\ p.a + p.w <= st.segs[p.s].max
                   /\ p.a >= st.segs[p.s].start
\* segments do not overlap in the image, and each stands at its alignment
Apart(st, D, how) ==
  LET L == Layout(st, D, how)
      o == ToSet(st.order)
  IN /\ \A s \in o : (L.at[s].f % (D[s].al)) = 0
     /\ \A s, t \in o : s # t => L.at[s].f + L.at[s].n <= L.at[t].f \/ L.at[t].f + L.at[t].n <= L.at[s].f
\* a byte of the image is the last one put at its place
Faithful(st, D, how) ==
  LET L == Layout(st, D, how)
      I == Image(st, D, how)
  IN \A k \in DOMAIN st.puts :
       LET p == st.puts[k]
           c == Content(st, L, D, p)
       IN \A j \in 0..(p.w - 1) :
            (~\E m \in DOMAIN st.puts : m > k /\ Covers(st.puts[m], p.s, p.a + j)) =>
               I[L.at[p.s].f + p.a + j - L.at[p.s].b + 1] \in {c[j + 1], CodeFill}
\* ... so that a group-relative address, counted from the group's paragraph, is the place of the item in the file
GroupPlaces(st, D, how) ==
  LET L == Layout(st, D, how) IN
  \A l \in ToSet(st.labs) :
    LET g == D[l.s].g
        first == InOrder(st, D, how)[1]
        o == InOrder(st, D, how)
        members == {k \in DOMAIN o : D[o[k]].g = g}
        lead == o[CHOOSE k \in members : \A j \in members : k <= j]
        skipped == L.at[lead].b
    IN g # 0 /\ L.at[l.s].n > 0 /\ L.at[lead].n > 0 /\ st.segs[lead].max > 0 /\ ~D[l.s].flat =>
         Addr(L, D, l.s, l.a) + 16 * (L.go[g] \div 16) = L.at[l.s].f + l.a - L.at[l.s].b + skipped
=============================================================================
