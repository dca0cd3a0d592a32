----------------------------- MODULE WExprModel -----------------------------
(* All expressions of some shapes: the grammar (operator precedence) against *)
(* its declarative meaning, the arithmetic against its laws. Every           *)
(* expression and its value are printed for replay.                          *)
EXTENDS WExpr, Json, FiniteSets
CONSTANT Shape
VARIABLES o, x
Big == <<"0", "1", "3", "64", "0ffh", "1234567h", "80000000h", "0FFFFFFFFh", "7FFFFFFFFFFFFFFFh", "8000000000000000h", "0FFFFFFFFFFFFFFF9h">>
Few == <<"0", "1", "2", "6">>
Ops == <<"+","-","*","/","mod","shl","shr","eq","ne","lt","le","gt","ge","and","or","xor">>
Pre == <<"-", "not", "low", "high", "lowword", "highword", "low32", "high32">>
S(q) == {q[k] : k \in 1..Len(q)}
Firsts == IF Shape = 1 THEN S(Pre) ELSE S(Ops)
Exprs ==
  CASE Shape = 2 -> {<<a, o, b>> : a \in S(Big), b \in S(Big)}
    [] Shape = 1 -> {<<o, a>> : a \in S(Big)} \cup {<<o, w, a>> : w \in S(Pre), a \in S(Big)}
    [] Shape = 3 -> {<<a, o, b, p, c>> : a \in {"2", "7"}, b \in S(Few), p \in S(Ops), c \in {"1", "3"}}
    [] Shape = 4 -> {<<u, a, o, b>> : u \in S(Pre), a \in {"1", "513", "80000001h"}, b \in S(Few)}
               \cup {<<a, o, u, b>> : u \in S(Pre), a \in {"1", "513"}, b \in {"0", "6"}}
    [] Shape = 5 -> {<<a, o, u, b, p, c>> : u \in {"-", "not", "low", "high"}, a \in {"5"}, b \in {"2", "260"}, p \in S(Ops), c \in {"1", "3"}}
Tk(t) == [k |-> IF Ch(t, 1) \in Digits THEN "num" ELSE "id", t |-> t, p |-> 0, e |-> 0, v |-> ""]
Toks(e) == [k \in 1..Len(e) |-> Tk(e[k])]
C0 == [rx |-> 10, bits |-> 32, sym |-> <<>>]
V(e) == EvalAll(Toks(e), C0)
RECURSIVE Cat(_)
Cat(e) == IF e = <<>> THEN "" ELSE e[1] \o " " \o Cat(Tail(e))

\* Declarative meaning of a sequence of operators and operands: the operator
\* applied last is the loosest one, the rightmost among equals for binary ones;
\* a prefix operator takes everything up to the next looser-or-equal operator.
IsPre(e, k) == e[k] \in S(Pre) /\ (k = 1 \/ e[k - 1] \in S(Ops) \cup S(Pre))
PreLev(t) == IF t = "-" THEN 7 ELSE Lev[t]
\* k is a binary operator that is not under a prefix operator that reaches over it
RECURSIVE Meaning(_)
Tighter(e, k, l) == \A j \in (k + 1)..Len(e) : (e[j] \in BinOps /\ ~IsPre(e, j)) => Lev[e[j]] < l
Meaning(e) ==
  IF Len(e) = 1 THEN LET r == V(e) IN r
  ELSE LET cand == {k \in 2..Len(e) : e[k] \in BinOps /\ ~IsPre(e, k)
                       \* nothing prefix before it swallows it
                       /\ \A j \in 1..(k - 1) : IsPre(e, j) => (\E m \in (j + 1)..k : e[m] \in BinOps /\ ~IsPre(e, m) /\ Lev[e[m]] >= PreLev(e[j]))}
           top == {k \in cand : \A m \in cand : Lev[e[m]] < Lev[e[k]] \/ (Lev[e[m]] = Lev[e[k]] /\ m <= k)}
       IN IF cand = {} THEN
             LET r == Meaning(Tail(e)) IN
             IF ~r.ok THEN r
             ELSE Val(Ext(IF e[1] = "not" THEN WNot(W8(r.v)) ELSE IF e[1] = "-" THEN WNeg(W8(r.v)) ELSE Apply1(e[1], W8(r.v)), 16), 0)
          ELSE LET k == CHOOSE k \in top : TRUE
                   l == Meaning(SubSeq(e, 1, k - 1))
                   r == Meaning(SubSeq(e, k + 1, Len(e)))
               IN IF ~l.ok THEN l ELSE IF ~r.ok THEN r
                  ELSE IF e[k] \in {"/", "mod"} /\ IsZero(W8(r.v)) THEN Err("div0")
                  ELSE IF e[k] \in {"shl", "shr"} /\ Negative(W8(r.v)) THEN Err("count")
                  ELSE Val(Ext(Apply2(e[k], W8(l.v), W8(r.v), 32), 16), 0)
Grammar == x # <<>> => LET v == V(x)  m == Meaning(x) IN v.ok = m.ok /\ (v.ok => W8(v.v) = W8(m.v))

\* laws of the arithmetic, for the pairs of Shape 2
L8(t) == W8(V(<<t>>).v)
Laws == Shape = 2 /\ x # <<>> /\ x[2] = "+" =>
  LET a == L8(x[1])  b == L8(x[3])  s == ToSmall(b)  one == Small(1, 8)
      A2(f, p, q) == Apply2(f, p, q, 64) IN
  /\ A2("-", A2("+", a, b), b) = a
  /\ A2("+", a, b) = A2("+", b, a) /\ A2("*", a, b) = A2("*", b, a)
  /\ WNeg(a) = A2("+", WNot(a), one) /\ A2("*", a, WNot(Zero(8))) = WNeg(a)
  /\ WNot(A2("and", a, b)) = A2("or", WNot(a), WNot(b))
  /\ A2("xor", a, b) = A2("-", A2("or", a, b), A2("and", a, b))
  /\ A2("+", a, b) = A2("+", A2("xor", a, b), WShl(A2("and", a, b), 1))
  /\ (b # Zero(8) => /\ ULt(UMod(a, b), b)
                     /\ A2("+", A2("*", UDivMod(a, b)[1], b), UMod(a, b)) = a
                     /\ LET r == A2("-", a, A2("*", SDiv(a, b), b)) IN      \* remainder of the signed division
                        IsZero(r) \/ (Negative(r) = Negative(a) /\ ULt(IF Negative(r) THEN WNeg(r) ELSE r, IF Negative(b) THEN WNeg(b) ELSE b)))
  /\ (s \in 0..63 => /\ (s < 16 => A2("shl", a, b) = A2("*", a, Small(2^s, 8)))
                     /\ WShr(WShl(WShr(a, s), s), s) = WShr(a, s)
                     /\ A2("or", WShl(WShr(a, s), s), A2("and", a, A2("-", WShl(one, s), one))) = a)
  /\ Cardinality({f \in {"lt", "eq", "gt"} : A2(f, a, b) # Zero(8)}) = 1
  /\ A2("ge", a, b) = WNot(A2("lt", a, b)) /\ A2("ne", a, b) = WNot(A2("eq", a, b)) /\ A2("le", a, b) = WNot(A2("gt", a, b))
  /\ A2("or", Apply1("low32", a), WShl(Apply1("high32", a), 32)) = a
  /\ Apply1("lowword", a) = A2("or", Apply1("low", a), WShl(Apply1("high", a), 8))
  /\ Apply1("low32", a) = A2("or", Apply1("lowword", a), WShl(Apply1("highword", a), 16))
Init == o \in Firsts /\ x = <<>>
Next == x = <<>> /\ x' \in Exprs /\ o' = o
Report == x # <<>> => LET v == V(x) IN PrintT(<<"@X", 0, ToJson([x |-> Cat(x), ok |-> v.ok, v |-> W8(v.v)])>>)
=============================================================================
