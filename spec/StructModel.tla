----------------------------- MODULE StructModel -----------------------------
(* All declarations of up to K statements; the layout and the default image   *)
(* are judged by what they mean, and every type is reported for replay.       *)
EXTENDS Struct, Json
CONSTANT K
VARIABLES st, hist, done
vars == <<st, hist, done>>
Field(es, n, c) == [name |-> "", off |-> 0, es |-> es, n |-> n, size |-> es * n, t |-> <<>>, arr |-> n > 1, pad |-> 0, kind |-> "int", sub |-> FALSE,
                    def |-> Repeat(<<c>> \o [k \in 1..(es - 1) |-> c], n)]
Shapes == {<<1, 1>>, <<2, 1>>, <<4, 1>>, <<8, 1>>, <<1, 3>>, <<2, 2>>}
Init == /\ \E u \in BOOLEAN, a \in {1, 2, 4, 8, 16} : st = <<NewType(u, a)>> /\ hist = <<[e |-> "open", u |-> u, a |-> a]>>
        /\ done = FALSE
Top == st[Len(st)]
Replace(x) == [st EXCEPT ![Len(st)] = x]
Cnt == Len(SelectSeq(hist, LAMBDA h : h.e # "close"))
AddField == \E s \in Shapes : Len(hist) <= K /\ st' = Replace(Add(Top, Field(s[1], s[2], Cnt), s[1])) /\ hist' = Append(hist, [e |-> "field", s |-> s[1], n |-> s[2]])
Align == Len(hist) <= K /\ st' = Replace(AlignIn(Top, 4)) /\ hist' = Append(hist, [e |-> "align"])
Open == \E u \in BOOLEAN : Len(hist) + 1 < K /\ Len(st) < 3 /\ st' = Append(st, NewType(u, Top.al)) /\ hist' = Append(hist, [e |-> "open", u |-> u])
\* an embedded structure becomes a field when it is complete
Close ==
  LET t == Finish(Top) IN
  /\ t.fields # <<>>
  /\ IF Len(st) = 1 THEN st' = <<t>> /\ done' = TRUE
     ELSE /\ st' = [SubSeq(st, 1, Len(st) - 1) EXCEPT ![Len(st) - 1] =
                      Add(@, [Field(t.size, 1, 0) EXCEPT !.t = <<t>>, !.def = <<>>, !.sub = TRUE], t.mm)]
          /\ done' = FALSE
  /\ hist' = Append(hist, [e |-> "close"])
Next == ~done /\ (((AddField \/ Align \/ Open) /\ done' = FALSE) \/ Close)

T == st[1]
A(t, f) == LET m == IF f.t = <<>> THEN f.es ELSE f.t[1].mm IN IF t.al > 1 THEN Least(t.al, m) ELSE 1
RECURSIVE Sound(_)
Sound(t) ==
  /\ \A k \in 1..Len(t.fields) :
       LET f == t.fields[k]  prev == IF k = 1 \/ t.kind = "union" THEN 0 ELSE t.fields[k - 1].off + t.fields[k - 1].size
       IN /\ f.off % A(t, f) = 0
          /\ f.off >= prev                                    \* fields do not overlap
          /\ t.kind = "union" => f.off = 0
          /\ f.off + f.size <= t.size
          /\ f.t # <<>> => Sound(f.t[1])
          /\ ((\A j \in DOMAIN hist : hist[j].e # "align") => f.off < prev + A(t, f))   \* no needless gap
  /\ t.al > 1 => t.size % Least(t.al, Most(t.mm, 1)) = 0
  /\ t.mm \in {A([al |-> 64], t.fields[k]) : k \in DOMAIN t.fields}
NoC == [rx |-> 10, bits |-> 32, sym |-> [x \in {} |-> <<>>]]
\* by default, an instance holds the defaults of the first member of every union, and zero bytes elsewhere
RECURSIVE Live(_, _)
Live(t, base) ==
  FoldLeft(LAMBDA a, f : a \o (IF f.t = <<>> THEN << <<base + f.off, f.def>> >> ELSE Live(f.t[1], base + f.off)), <<>>,
          IF t.kind = "union" THEN SubSeq(t.fields, 1, 1) ELSE t.fields)
Img == Image(T, <<>>, NoC)
Filled == LET L == Live(T, 0) IN
  /\ Img.ok /\ Len(Img.b) = T.size
  /\ \A x \in 1..Len(L) : SubSeq(Img.b, L[x][1] + 1, L[x][1] + Len(L[x][2])) = L[x][2]
  /\ \A p \in 1..T.size : Img.b[p] # 0 => \E x \in 1..Len(L) : p > L[x][1] /\ p <= L[x][1] + Len(L[x][2])
LeavesAligned == LET L == Leaves(T, 0) IN \A x \in 1..Len(L) : T.al > 1 => L[x][1] % Least(T.al, L[x][2]) = 0
Inv == done =>
  /\ Sound(T) /\ Filled /\ LeavesAligned
  /\ PrintT(<<"@S", 0, ToJson([h |-> hist, size |-> T.size, al |-> T.al, img |-> Img.b,
                               offs |-> [k \in DOMAIN T.fields |-> T.fields[k].off], leaves |-> [x \in 1..Len(Leaves(T, 0)) |-> Leaves(T, 0)[x][1]]])>>)
=============================================================================
