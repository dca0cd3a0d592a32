------------------------------- MODULE Expr -------------------------------
(* Constant expressions over small integers (|v| < 2^31), by the documented*)
(* precedence, each level left-associative:                                *)
(*   6 LOW HIGH LOWWORD HIGHWORD   7 unary + -   8 * / MOD SHL SHR         *)
(*   9 + -   10 EQ NE LT LE GT GE   11 NOT   12 AND   13 OR XOR            *)
(* Ev(T, i, S, lvl): value of the longest expression of precedence <= lvl  *)
(* that starts at token i; S maps names to their symbol records.           *)
EXTENDS Text

RECURSIVE BAnd(_, _)
BAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = -1 THEN b ELSE IF b = -1 THEN a
              ELSE 2 * BAnd(a \div 2, b \div 2) + (a % 2) * (b % 2)
BNot(a) == -1 - a
BOr(a, b) == BNot(BAnd(BNot(a), BNot(b)))
BXor(a, b) == BOr(a, b) - BAnd(a, b)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bool(b) == IF b THEN -1 ELSE 0

NoVal == [ok |-> FALSE, v |-> 0, n |-> 0]
Val(v, n) == [ok |-> TRUE, v |-> v, n |-> n]

Lev == [x \in {"low","high","lowword","highword"} |-> 6] @@
       [x \in {"*","/","mod","shl","shr"} |-> 8] @@ [x \in {"+","-"} |-> 9] @@
       [x \in {"eq","ne","lt","le","gt","ge"} |-> 10] @@ [x \in {"not"} |-> 11] @@
       [x \in {"and"} |-> 12] @@ [x \in {"or","xor"} |-> 13]
BinLev(x) == IF x \in DOMAIN Lev /\ x \notin {"low","high","lowword","highword","not"} THEN Lev[x] ELSE 0

Apply2(op, a, b) ==
  CASE op = "+" -> a + b   [] op = "-" -> a - b   [] op = "*" -> a * b
    [] op = "/" -> a \div b [] op = "mod" -> a % b
    [] op = "shl" -> a * Pow2(b) [] op = "shr" -> a \div Pow2(b)
    [] op = "eq" -> Bool(a = b) [] op = "ne" -> Bool(a # b)
    [] op = "lt" -> Bool(a < b) [] op = "le" -> Bool(a <= b)
    [] op = "gt" -> Bool(a > b) [] op = "ge" -> Bool(a >= b)
    [] op = "and" -> BAnd(a, b) [] op = "or" -> BOr(a, b) [] op = "xor" -> BXor(a, b)
Apply1(op, a) ==
  CASE op = "low" -> BAnd(a, 255) [] op = "high" -> BAnd(a \div 256, 255)
    [] op = "lowword" -> BAnd(a, 65535) [] op = "highword" -> BAnd(a \div 65536, 65535)

HexV(c) == IF c \in Digits THEN DigVal[c]
           ELSE CASE LowC(c) = "a" -> 10 [] LowC(c) = "b" -> 11 [] LowC(c) = "c" -> 12
                  [] LowC(c) = "d" -> 13 [] LowC(c) = "e" -> 14 [] LowC(c) = "f" -> 15
RECURSIVE Radix(_, _, _)
Radix(s, r, acc) == IF s = "" THEN acc ELSE Radix(From(s, 2), r, acc * r + HexV(Ch(s, 1)))
NumVal(s) ==
  LET z == LowC(Ch(s, Len(s)))  h == SubSeq(s, 1, Len(s) - 1) IN
  IF z = "h" THEN Radix(h, 16, 0)
  ELSE IF z \in {"b", "y"} THEN Radix(h, 2, 0)
  ELSE IF z \in {"o", "q"} THEN Radix(h, 8, 0)
  ELSE IF z \in {"d", "t"} THEN Radix(h, 10, 0)
  ELSE NumOf(s)

RECURSIVE Ev(_, _, _, _)
RECURSIVE EvRest(_, _, _, _)
\* r: value so far (a left operand), go on with operators of level <= lvl
EvRest(T, r, S, lvl) ==
  IF ~r.ok \/ r.n > Len(T) THEN r
  ELSE LET op == T[r.n].t  l == BinLev(op) IN
       IF l = 0 \/ l > lvl THEN r
       ELSE LET b == Ev(T, r.n + 1, S, l - 1) IN
            IF ~b.ok THEN b
            ELSE IF op \in {"/", "mod"} /\ b.v = 0 THEN NoVal
            ELSE EvRest(T, Val(Apply2(op, r.v, b.v), b.n), S, lvl)
Ev(T, i, S, lvl) ==
  IF i > Len(T) THEN NoVal
  ELSE LET x == T[i] IN
       IF x.t = "not" THEN
          \* takes everything that binds tighter, wherever it stands
          LET b == Ev(T, i + 1, S, 11) IN
          IF ~b.ok THEN b ELSE EvRest(T, Val(BNot(b.v), b.n), S, lvl)
       ELSE IF x.t \in {"+", "-"} THEN
          LET b == Ev(T, i + 1, S, 7) IN
          IF ~b.ok THEN b ELSE EvRest(T, Val(IF x.t = "-" THEN 0 - b.v ELSE b.v, b.n), S, lvl)
       ELSE IF x.t \in {"low","high","lowword","highword"} THEN
          LET b == Ev(T, i + 1, S, 6) IN
          IF ~b.ok THEN b ELSE EvRest(T, Val(Apply1(x.t, b.v), b.n), S, lvl)
       ELSE IF x.t = "(" THEN
          LET b == Ev(T, i + 1, S, 14) IN
          IF ~b.ok THEN b
          ELSE IF b.n > Len(T) \/ T[b.n].t # ")" THEN NoVal
          ELSE EvRest(T, Val(b.v, b.n + 1), S, lvl)
       ELSE IF x.k = "num" THEN EvRest(T, Val(NumVal(x.t), i + 1), S, lvl)
       ELSE IF x.k = "str" /\ Len(x.v) = 1 THEN EvRest(T, Val(Code(x.v), i + 1), S, lvl)
       ELSE IF x.k = "id" /\ x.t \in DOMAIN S /\ S[x.t].k \in {"var", "const"}
       THEN EvRest(T, Val(S[x.t].v, i + 1), S, lvl)
       ELSE NoVal

\* the value of the tokens as one complete expression
EvalAll(T, S) == LET r == Ev(T, 1, S, 14) IN IF r.ok /\ r.n = Len(T) + 1 THEN r ELSE NoVal
=============================================================================
