-------------------------------- MODULE Data --------------------------------
(* Data definitions: the bytes that an initialiser list denotes, and the     *)
(* attributes TYPE, LENGTHOF, SIZEOF, LENGTH, SIZE of its label.             *)
(*   list := item {, item}     item := ? | string | value | count DUP (list) *)
(* Sizes 1 2 4 6 8 10 16 32 64; kind "int" or "real" (4, 8, 10).             *)
EXTENDS WExpr

\* <<ok, why, bytes, number of elements, elements of the first dimension, next token>>
Fail(w) == [ok |-> FALSE, why |-> w, b |-> <<>>, n |-> 0, first |-> 0, at |-> 0]
Good(b, n, f, at) == [ok |-> TRUE, why |-> "", b |-> b, n |-> n, first |-> f, at |-> at]

RECURSIVE Repeat(_, _)
Repeat(b, k) == IF k = 0 THEN <<>> ELSE b \o Repeat(b, k - 1)
Rev(b) == [k \in 1..Len(b) |-> b[Len(b) + 1 - k]]

\* a quote inside a string is written twice: 'it''s'
Adjacent(T, i) == i < Len(T) /\ T[i].k = "str" /\ T[i + 1].k = "str" /\ T[i].e = T[i + 1].p
                  /\ Ch(T[i].t, 1) = Ch(T[i + 1].t, 1)
RECURSIVE StrEnd(_, _)
StrEnd(T, i) == IF Adjacent(T, i) THEN StrEnd(T, i + 1) ELSE i + 1
RECURSIVE StrBytes(_, _)
StrBytes(T, i) ==
  Codes(T[i].v) \o (IF Adjacent(T, i) THEN <<IF Ch(T[i].t, 1) = "'" THEN 39 ELSE 34>> \o StrBytes(T, i + 1) ELSE <<>>)

\* ---- floating point: the number m / 2^k (m of 8 bytes), rounded to nearest-even
RECURSIVE TopBit(_, _)
TopBit(a, k) == IF k < 0 THEN -1 ELSE IF Bit(a, k) = 1 THEN k ELSE TopBit(a, k - 1)
\* p significant bits; bias, exponent field at bit position ep of n bytes; hidden top bit unless n = 10
Float(neg, m, k, n) ==
  LET p == CASE n = 4 -> 24 [] n = 8 -> 53 [] n = 10 -> 64
      bias == CASE n = 4 -> 127 [] n = 8 -> 1023 [] n = 10 -> 16383
      t == TopBit(m, 63)
      w == ZExt(m, 16)
      cut == t + 1 - p                       \* bits to drop if positive
      kept == IF cut > 0 THEN WShr(w, cut) ELSE WShl(w, 0 - cut)
      rest == IF cut > 0 THEN WSub(w, WShl(kept, cut)) ELSE Zero(16)
      half == IF cut > 0 THEN WShl(Small(1, 16), cut - 1) ELSE Zero(16)
      up == cut > 0 /\ (ULt(half, rest) \/ (rest = half /\ kept[1] % 2 = 1))
      r0 == IF up THEN WAdd(kept, Small(1, 16)) ELSE kept
      over == Bit(r0, p) = 1
      r == IF over THEN WShr(r0, 1) ELSE r0
      e == bias + t - k + (IF over THEN 1 ELSE 0)
      frac == IF n = 10 THEN r ELSE WSub(r, WShl(Small(1, 16), p - 1))
      ep == IF n = 10 THEN 64 ELSE p - 1
      x == WOr(WOr(frac, WShl(Small(e, 16), ep)), IF neg THEN WShl(Small(1, 16), 8 * n - 1) ELSE Zero(16))
  IN IF t < 0 THEN Zero(n) ELSE SubSeq(x, 1, n)

\* [-] digits . digits : is one at i? the value is exact if the fraction is dyadic
IsReal(T, i) == LET j == IF T[i].t = "-" THEN i + 1 ELSE i IN
                j + 2 <= Len(T) /\ T[j].k = "num" /\ T[j + 1].t = "." /\ T[j + 2].k = "num"
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
RealAt(T, i, n) ==
  LET neg == T[i].t = "-"
      j == IF neg THEN i + 1 ELSE i
      fr == T[j + 2].t  k == Len(fr)
      f5 == NumOf(fr)
      m == WAdd(WMul(Small(NumOf(T[j].t), 8), Small(Pow(2, k), 8)), Small(f5 \div Pow(5, k), 8))
  IN IF f5 % Pow(5, k) # 0 THEN Fail("open")
     ELSE IF n \notin {4, 8, 10} THEN Fail("open")
     ELSE Good(Float(neg, m, k, n), 1, 1, j + 3)

\* ---- integers
\* beyond 8 bytes a negative number is sign-extended if it is a number with a minus
\* before it (a result of operators has 64 bits only: left open if it is negative)
Plain(T, i, to) == to = i + 2 /\ T[i].t = "-" /\ T[i + 1].k = "num"
IntItem(T, i, r, n) ==
  IF n <= 8 THEN Item(r.v, n)
  ELSE IF ~Plain(T, i, r.n) /\ ~(r.n = i + 1 /\ T[i].k = "num") /\ Negative(r.v) THEN <<-1>>
  ELSE IF Negative(r.v) /\ T[i].t = "-" /\ Is64(r.v) /\ ~Negative(W8(r.v)) THEN <<-1>>   \* -(2^64-1)..-(2^63+1): see the known findings
  ELSE IF n = 10 THEN
     IF Negative(r.v) /\ T[i].t = "-" THEN (IF Negative(SubSeq(r.v, 1, 10)) /\ \A k \in 11..16 : r.v[k] = 255 THEN SubSeq(r.v, 1, 10) ELSE <<-1>>)
     ELSE IF \A k \in 11..16 : r.v[k] = 0 THEN SubSeq(r.v, 1, 10) ELSE <<>>
  ELSE IF Negative(r.v) /\ T[i].t = "-" THEN Ext(r.v, n) ELSE ZExt(r.v, n)

\* ---- the initialisers of a definition with elements of n bytes
RECURSIVE List(_, _, _, _, _)
RECURSIVE One(_, _, _, _, _)
One(T, i, C, n, kind) ==
  IF i > Len(T) THEN Fail("syntax")
  ELSE IF T[i].t = "?" THEN Good(Zero(n), 1, 1, i + 1)
  ELSE LET e == StrEnd(T, i)
           lone == T[i].k = "str" /\ (e > Len(T) \/ T[e].t \in {",", ")"})
       IN IF lone /\ kind = "int" THEN
            LET s == StrBytes(T, i) IN
            IF s = <<>> THEN Fail("empty")
            ELSE IF n = 1 THEN Good(s, Len(s), 1, e)
            ELSE IF Len(s) > n THEN Fail("long")
            ELSE Good(Rev(s) \o Zero(n - Len(s)), 1, 1, e)
          ELSE IF IsReal(T, i) THEN RealAt(T, i, n)
          ELSE LET r == Ev(T, i, C, 14) IN
               IF ~r.ok THEN Fail(r.why)
               ELSE IF r.n <= Len(T) /\ Lower(T[r.n].t) = "dup" THEN
                  IF ~Is64(r.v) \/ (~Negative(W8(r.v)) /\ \E k \in 5..8 : r.v[k] # 0) THEN Fail("count")
                  ELSE IF Negative(W8(r.v)) THEN Fail("count")
                  ELSE IF r.n + 1 > Len(T) \/ T[r.n + 1].t # "(" THEN Fail("paren")
                  ELSE LET c == ToSmall(W8(r.v))
                           x == List(T, r.n + 2, C, n, kind)
                       IN IF ~x.ok THEN (IF c = 0 THEN Fail("open") ELSE x)
                          ELSE IF x.at > Len(T) \/ T[x.at].t # ")" THEN Fail("paren")
                          ELSE IF c > 3000 \/ c * Len(x.b) > 3000 THEN Fail("open")
                          ELSE Good(TLCEval(Repeat(x.b, c)), c * x.n, c, x.at + 1)
               ELSE IF kind = "real" THEN
                  IF ~Is64(r.v) THEN Fail("wide")
                  ELSE LET neg == Negative(W8(r.v)) IN
                       Good(Float(neg, IF neg THEN WNeg(W8(r.v)) ELSE W8(r.v), 0, n), 1, 1, r.n)
               ELSE LET b == IntItem(T, i, r, n) IN
                    IF b = <<>> THEN Fail("fit") ELSE IF b = <<-1>> THEN Fail("open") ELSE Good(b, 1, 1, r.n)
List(T, i, C, n, kind) ==
  LET x == One(T, i, C, n, kind) IN
  IF ~x.ok THEN x
  ELSE IF x.at <= Len(T) /\ T[x.at].t = "," THEN
         LET y == List(T, x.at + 1, C, n, kind) IN
         IF ~y.ok THEN y ELSE Good(TLCEval(x.b \o y.b), x.n + y.n, x.first, y.at)
       ELSE x

Define(text, C, n, kind) ==
  LET T == Tokens(text)  x == List(T, 1, C, n, kind) IN
  IF x.ok /\ x.at # Len(T) + 1 THEN Fail("syntax") ELSE x

Attrs(x, n) == [type |-> n, lengthof |-> x.n, sizeof |-> x.n * n, length |-> x.first, size |-> x.first * n]
=============================================================================
