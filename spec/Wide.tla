------------------------------- MODULE Wide -------------------------------
(* Two's-complement integers wider than TLC's 32 bits: sequences of bytes,  *)
(* least significant first. All operations are modulo 256^Len.              *)
EXTENDS Integers, Sequences, Bitwise, TLC

Zero(n) == TLCEval([k \in 1..n |-> 0])
\* the n bytes of a small number (TLC's \div and % are floored: two's complement)
RECURSIVE Small(_, _)
Small(v, n) == IF n = 0 THEN <<>> ELSE <<(v % 256)>> \o Small(v \div 256, n - 1)
Negative(a) == a[Len(a)] >= 128
Ext(a, n) == TLCEval([k \in 1..n |-> IF k <= Len(a) THEN a[k] ELSE IF Negative(a) THEN 255 ELSE 0])
ZExt(a, n) == TLCEval([k \in 1..n |-> IF k <= Len(a) THEN a[k] ELSE 0])
IsZero(a) == \A k \in 1..Len(a) : a[k] = 0

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET s == a[i] + b[i] + c IN <<(s % 256)>> \o AddC(a, b, i + 1, s \div 256)
WAdd(a, b) == AddC(a, b, 1, 0)
WNot(a) == TLCEval([k \in 1..Len(a) |-> 255 - a[k]])
WNeg(a) == AddC(WNot(a), Zero(Len(a)), 1, 1)
WSub(a, b) == AddC(a, WNot(b), 1, 1)
WAnd(a, b) == TLCEval([k \in 1..Len(a) |-> a[k] & b[k]])
WOr(a, b) == TLCEval([k \in 1..Len(a) |-> a[k] | b[k]])
WXor(a, b) == TLCEval([k \in 1..Len(a) |-> a[k] ^^ b[k]])

RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + ColSum(a, b, k, i + 1)
RECURSIVE MulC(_, _, _, _)
MulC(a, b, k, c) == IF k > Len(a) THEN <<>>
                    ELSE LET s == ColSum(a, b, k, 1) + c IN <<(s % 256)>> \o MulC(a, b, k + 1, s \div 256)
WMul(a, b) == MulC(a, b, 1, 0)

\* a * m + c for a small m
RECURSIVE MulAdd(_, _, _, _)
MulAdd(a, i, m, c) == IF i > Len(a) THEN <<>>
                      ELSE LET s == a[i] * m + c IN <<(s % 256)>> \o MulAdd(a, i + 1, m, s \div 256)
\* unsigned and signed order
RECURSIVE ULess(_, _, _)
ULess(a, b, k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE ULess(a, b, k - 1)
ULt(a, b) == ULess(a, b, Len(a))
SLt(a, b) == IF Negative(a) # Negative(b) THEN Negative(a) ELSE ULt(a, b)

P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
\* one place up, with c shifted in
RECURSIVE DoubleC(_, _, _)
DoubleC(a, i, c) == IF i > Len(a) THEN <<>> ELSE <<((2 * a[i] + c) % 256)>> \o DoubleC(a, i + 1, a[i] \div 128)
Bit(a, k) == (a[(k \div 8) + 1] \div P2[(k % 8) + 1]) % 2
WShl(a, n) ==
  IF n >= 8 * Len(a) THEN Zero(Len(a))
  ELSE LET q == n \div 8  m == P2[(n % 8) + 1]
           at(k) == IF k < 1 THEN 0 ELSE a[k]
       IN TLCEval([k \in 1..Len(a) |-> ((at(k - q) * m) % 256) + ((at(k - q - 1) * m) \div 256)])
WShr(a, n) ==     \* logical
  IF n >= 8 * Len(a) THEN Zero(Len(a))
  ELSE LET q == n \div 8  m == P2[(n % 8) + 1]
           at(k) == IF k > Len(a) THEN 0 ELSE a[k]
       IN TLCEval([k \in 1..Len(a) |-> (at(k + q) \div m) + ((at(k + q + 1) * (256 \div m)) % 256)])

\* long division, bit by bit from bit k down: <<quotient, remainder>>
RECURSIVE DivC(_, _, _, _, _)
DivC(a, b, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET r2 == DoubleC(r, 1, Bit(a, k))
           fits == ~ULt(r2, b)
           over == Negative(r)           \* the doubled remainder does not fit: larger than any b
           take == fits \/ over
       IN DivC(a, b, k - 1, TLCEval(DoubleC(q, 1, IF take THEN 1 ELSE 0)), TLCEval(IF take THEN WSub(r2, b) ELSE r2))
RECURSIVE TopByte(_, _)
TopByte(a, k) == IF k = 0 \/ a[k] # 0 THEN k ELSE TopByte(a, k - 1)
UDivMod(a, b) == DivC(a, b, 8 * TopByte(a, Len(a)) - 1, Zero(Len(a)), Zero(Len(a)))
UMod(a, b) == UDivMod(a, b)[2]
\* signed division, truncated towards zero
SDiv(a, b) ==
  LET p == IF Negative(a) THEN WNeg(a) ELSE a
      d == IF Negative(b) THEN WNeg(b) ELSE b
      q == UDivMod(p, d)[1]
  IN IF Negative(a) # Negative(b) THEN WNeg(q) ELSE q

\* a as a small number if it is one (|a| < 2^24), else 2^30 with its sign
ToSmall(a) ==
  IF \A k \in 4..Len(a) : a[k] = 0 THEN a[1] + 256 * a[2] + 65536 * a[3]
  ELSE IF Negative(a) /\ \A k \in 4..Len(a) : a[k] = 255 THEN a[1] + 256 * a[2] + 65536 * a[3] - 16777216
  ELSE IF Negative(a) THEN -1073741824 ELSE 1073741824

\* does a fit an item of n bytes, in the assembler's sense: -256^n < a < 256^n
Fits(a, n) ==
  n >= Len(a) \/ (\A k \in (n + 1)..Len(a) : a[k] = 0)
  \/ ((\A k \in (n + 1)..Len(a) : a[k] = 255) /\ \E k \in 1..n : a[k] # 0)
=============================================================================
