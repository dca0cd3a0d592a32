----------------------------- MODULE WExprBatch -----------------------------
(* Values of the expressions of an ndjson file, and what each use of them    *)
(* yields: the bytes it emits, or that it is an error.                       *)
EXTENDS WExpr, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
C(c) == [rx |-> c.rx, bits |-> c.bits, sym |-> c.sym]
Bytes(b) == [ok |-> TRUE, b |-> b]
No == [ok |-> FALSE, b |-> <<>>]
OfItem(v, n) == LET x == Item(v, n) IN IF x = <<>> THEN No ELSE Bytes(x)
Nonzero(v) == ~IsZero(v)
\* text of a negative number in %-expansion of TEXTEQU: 32-bit unsigned if it is that small
TextVal(v) == LET w == W8(v) IN
  IF \A k \in 5..8 : w[k] = 255 THEN ZExt(SubSeq(w, 1, 4), 8) ELSE w
Skip == Bytes(<<-1>>)
Use(u, T, r, bits) ==
  IF ~r.ok THEN No
  ELSE LET v == r.v IN
  CASE u = "dq" -> OfItem(v, 8) [] u = "dd" -> OfItem(v, 4) [] u = "dw" -> OfItem(v, 2)
    [] u = "db" -> OfItem(v, 1) [] u = "df" -> OfItem(v, 6)
    [] u = "imm" -> LET x == Item(v, 4) IN IF x = <<>> THEN No ELSE Bytes((IF bits = 16 THEN <<102>> ELSE <<>>) \o <<184>> \o x)
    [] u \in {"eq", "eqx"} -> IF AssignOk(T, v, bits) THEN OfItem(v, 8) ELSE No
    [] u = "equ" -> OfItem(v, 8)
    [] u \in {"if", "elseif"} -> Bytes(IF Nonzero(v) THEN <<1>> ELSE <<0>>)
    [] u = "while" -> Bytes(IF Nonzero(v) THEN <<1>> ELSE <<>>)
    [] u = "ife" -> Bytes(IF Nonzero(v) THEN <<0>> ELSE <<1>>)
    [] u = "dup" -> IF ~Is64(v) \/ Negative(W8(v)) \/ \E k \in 5..8 : v[k] # 0 THEN No
                    ELSE IF ToSmall(W8(v)) > 200 THEN Skip ELSE Bytes([k \in 1..ToSmall(W8(v)) |-> 90])
    [] u = "rept" -> IF Negative(W8(v)) THEN Bytes(<<>>) ELSE IF ~Is64(v) \/ \E k \in 5..8 : v[k] # 0 THEN No
                     ELSE IF ToSmall(W8(v)) > 200 THEN Skip ELSE Bytes([k \in 1..ToSmall(W8(v)) |-> 90])
    [] u = "mac" -> IF Is64(v) THEN Bytes(W8(v)) ELSE Skip
    [] u = "txt" -> IF Is64(v) THEN Bytes(TextVal(v)) ELSE Skip
    [] u = "erre" -> IF Nonzero(v) THEN Bytes(<<>>) ELSE No
    [] u = "errnz" -> IF Nonzero(v) THEN No ELSE Bytes(<<>>)
Init == i \in 1..Len(Cases)
Next == FALSE /\ i' = i
Report == LET c == Cases[i]
              T == Tokens(c.x)
              r == EvalAll(T, C(c))
          IN PrintT(<<"@V", i, ToJson([ok |-> r.ok, why |-> r.why, v |-> r.v, use |-> [k \in 1..Len(c.use) |-> Use(c.use[k], T, r, c.bits)]])>>)
=============================================================================
