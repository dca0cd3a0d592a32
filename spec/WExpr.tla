------------------------------- MODULE WExpr -------------------------------
(* Constant expressions: 64-bit two's-complement arithmetic under the       *)
(* documented precedence, each level left-associative:                      *)
(*   6 LOW HIGH LOWWORD HIGHWORD LOW32 HIGH32   7 unary + -                 *)
(*   8 * / MOD SHL SHR   9 + -   10 EQ NE LT LE GT GE   11 NOT   12 AND     *)
(*   13 OR XOR                                                              *)
(* True is -1. '/' is signed, MOD unsigned, comparisons signed, SHR logical.*)
(* A number of more than 64 bits can only be negated or stand alone.        *)
EXTENDS Wide, Text, TLC

Err(w) == [ok |-> FALSE, why |-> w, v |-> Zero(16), n |-> 0]
\* values are kept with 16 bytes; those of operators are sign-extended from 8
Val(v, n) == [ok |-> TRUE, why |-> "", v |-> v, n |-> n]

Lev == [x \in {"low","high","lowword","highword","low32","high32"} |-> 6] @@
       [x \in {"*","/","mod","shl","shr"} |-> 8] @@ [x \in {"+","-"} |-> 9] @@
       [x \in {"eq","ne","lt","le","gt","ge"} |-> 10] @@ [x \in {"not"} |-> 11] @@
       [x \in {"and"} |-> 12] @@ [x \in {"or","xor"} |-> 13]
Un6 == {"low","high","lowword","highword","low32","high32"}
BinOps == DOMAIN Lev \ (Un6 \cup {"not"})

W8(a) == SubSeq(a, 1, 8)
True8(b) == IF b THEN WNot(Zero(8)) ELSE Zero(8)
\* a constant of at most 64 bits (a negated one may use the sign's word)
Is64(a) == (\A k \in 9..16 : a[k] = 0) \/ (\A k \in 9..16 : a[k] = 255)

Apply2(op, a, b, bits) ==
  CASE op = "+" -> WAdd(a, b) [] op = "-" -> WSub(a, b) [] op = "*" -> WMul(a, b)
    [] op = "/" -> SDiv(a, b) [] op = "mod" -> UMod(a, b)
    [] op = "shl" -> WShl(a, ToSmall(b))
    \* in 32-bit code -1 is taken as the 32-bit number that it is there
    [] op = "shr" -> IF bits = 32 /\ a = WNot(Zero(8)) THEN WShr(ZExt(<<255,255,255,255>>, 8), ToSmall(b))
                     ELSE WShr(a, ToSmall(b))
    [] op = "eq" -> True8(a = b) [] op = "ne" -> True8(a # b)
    [] op = "lt" -> True8(SLt(a, b)) [] op = "le" -> True8(~SLt(b, a))
    [] op = "gt" -> True8(SLt(b, a)) [] op = "ge" -> True8(~SLt(a, b))
    [] op = "and" -> WAnd(a, b) [] op = "or" -> WOr(a, b) [] op = "xor" -> WXor(a, b)
Apply1(op, a) ==
  CASE op = "low" -> ZExt(SubSeq(a, 1, 1), 8) [] op = "high" -> ZExt(SubSeq(a, 2, 2), 8)
    [] op = "lowword" -> ZExt(SubSeq(a, 1, 2), 8) [] op = "highword" -> ZExt(SubSeq(a, 3, 4), 8)
    [] op = "low32" -> ZExt(SubSeq(a, 1, 4), 8) [] op = "high32" -> ZExt(SubSeq(a, 5, 8), 8)

HexV(c) == IF c \in Digits THEN DigVal[c]
           ELSE CASE LowC(c) = "a" -> 10 [] LowC(c) = "b" -> 11 [] LowC(c) = "c" -> 12
                  [] LowC(c) = "d" -> 13 [] LowC(c) = "e" -> 14 [] LowC(c) = "f" -> 15
                  [] OTHER -> 99
RECURSIVE RadixN(_, _, _)
RadixN(s, r, acc) == IF s = "" THEN acc
                     ELSE RadixN(From(s, 2), r, TLCEval(MulAdd(acc, 1, r, HexV(Ch(s, 1)))))
\* the digits of s are all below r
RECURSIVE DigsOk(_, _)
DigsOk(s, r) == s = "" \/ (HexV(Ch(s, 1)) < r /\ DigsOk(From(s, 2), r))
\* base and digits of a number under the default radix rx: a suffix letter counts
\* as one unless it is a digit of the default radix
NumParts(s, rx) ==
  LET z == LowC(Ch(s, Len(s)))  h == SubSeq(s, 1, Len(s) - 1) IN
  IF Len(s) > 2 /\ Ch(s, 1) = "0" /\ LowC(Ch(s, 2)) = "x" THEN <<16, From(s, 3)>>
  ELSE IF z = "h" THEN <<16, h>>
  ELSE IF z = "y" \/ (z = "b" /\ rx <= 11) THEN <<2, h>>
  ELSE IF z \in {"o", "q"} THEN <<8, h>>
  ELSE IF z = "t" \/ (z = "d" /\ rx <= 13) THEN <<10, h>>
  ELSE <<rx, s>>
NumVal18(s, rx) == LET p == NumParts(s, rx) IN RadixN(p[2], p[1], Zero(18))

\* a string of up to 8 characters: its first character is the most significant
RECURSIVE StrVal(_, _)
StrVal(s, acc) == IF s = "" THEN acc ELSE StrVal(From(s, 2), <<Code(Ch(s, 1))>> \o SubSeq(acc, 1, 15))

\* C: [rx |-> default radix, bits |-> 16/32/64, sym |-> names to 16-byte values]
RECURSIVE Ev(_, _, _, _)
RECURSIVE EvRest(_, _, _, _, _)
EvRest(T, r, C, lvl, d) ==
  IF ~r.ok \/ r.n > Len(T) THEN r
  ELSE LET op == Lower(T[r.n].t) IN
       IF T[r.n].k = "str" \/ op \notin BinOps THEN r
       ELSE IF Lev[op] > lvl THEN r
       ELSE LET b == Ev(T, r.n + 1, C, Lev[op] - 1) IN
            IF ~b.ok THEN b
            ELSE IF ~Is64(r.v) \/ ~Is64(b.v) THEN Err("wide")
            ELSE IF op \in {"/", "mod"} /\ IsZero(W8(b.v)) THEN Err("div0")
            ELSE IF op \in {"shl", "shr"} /\ Negative(W8(b.v)) THEN Err("count")
            ELSE EvRest(T, Val(Ext(Apply2(op, W8(r.v), W8(b.v), C.bits), 16), b.n), C, lvl, d)
Ev(T, i, C, lvl) ==
  IF i > Len(T) THEN Err("syntax")
  ELSE LET x == T[i]  t == Lower(x.t) IN
       IF x.k = "str" THEN (IF Len(x.v) \in 1..8 THEN EvRest(T, Val(StrVal(x.v, Zero(16)), i + 1), C, lvl, 0) ELSE Err("syntax"))
       ELSE IF t = "not" THEN
          LET b == Ev(T, i + 1, C, 11) IN
          IF ~b.ok THEN b ELSE IF ~Is64(b.v) THEN Err("wide")
          ELSE EvRest(T, Val(Ext(WNot(W8(b.v)), 16), b.n), C, lvl, 0)
       ELSE IF t \in {"+", "-"} THEN
          LET b == Ev(T, i + 1, C, 7) IN
          IF ~b.ok THEN b ELSE EvRest(T, Val(IF t = "-" THEN WNeg(b.v) ELSE b.v, b.n), C, lvl, 0)
       ELSE IF t \in Un6 THEN
          LET b == Ev(T, i + 1, C, 6) IN
          IF ~b.ok THEN b ELSE IF ~Is64(b.v) THEN Err("wide")
          ELSE EvRest(T, Val(Ext(Apply1(t, W8(b.v)), 16), b.n), C, lvl, 0)
       ELSE IF t = "(" THEN
          LET b == Ev(T, i + 1, C, 14) IN
          IF ~b.ok THEN b
          ELSE IF b.n > Len(T) \/ T[b.n].t # ")" THEN Err("syntax")
          ELSE EvRest(T, Val(b.v, b.n + 1), C, lvl, 0)
       ELSE IF x.k = "num" THEN
          LET v == NumVal18(x.t, C.rx) IN
          IF v[17] # 0 \/ v[18] # 0 THEN Err("wide") ELSE EvRest(T, Val(SubSeq(v, 1, 16), i + 1), C, lvl, 0)
       ELSE IF x.k = "id" /\ t \in DOMAIN C.sym THEN EvRest(T, Val(C.sym[t], i + 1), C, lvl, 0)
       ELSE Err("syntax")

\* the value of the tokens as one complete expression
EvalAll(T, C) == LET r == Ev(T, 1, C, 14) IN
                 IF r.ok /\ r.n # Len(T) + 1 THEN Err("syntax") ELSE r

(* What the statements that use an expression make of its value v:           *)
(* data items and immediates of n bytes; '=' and EQU names keep it.          *)
Item(v, n) == LET w == Ext(W8(v), 16) IN
  IF ~((\A k \in 9..16 : v[k] = 0) \/ ((\A k \in 9..16 : v[k] = 255) /\ ~IsZero(W8(v)))) THEN <<>>
  ELSE IF n >= 8 THEN SubSeq(v, 1, n)
  ELSE IF Fits(w, n) THEN SubSeq(w, 1, n) ELSE <<>>
\* '=' holds 64-bit numbers; a lone number or string must, outside 64-bit code and
\* taken as a signed 64-bit number, be within -2^32..2^32-1
AssignOk(T, v, bits) ==
  Is64(v) /\ (Len(T) > 1 \/ T[1].k = "id" \/ bits = 64
              \/ (\A k \in 5..8 : v[k] = 0) \/ (\A k \in 5..8 : v[k] = 255))
=============================================================================
