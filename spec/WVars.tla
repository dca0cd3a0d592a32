------------------------------- MODULE WVars -------------------------------
(* Assembly-time variables of 64 bits: programs of assignments and uses, in  *)
(* which every use sees the last assignment before it, whatever the number   *)
(* of passes. Statements: [k: "set", v, x], [k: "use", u: "dq" | "dd" | "if",*)
(* x], [k: "jump"] (a branch that needs another pass).                       *)
EXTENDS WExpr
Jump == <<15, 132, 130, 0, 0, 0>> \o [k \in 1..130 |-> 0]
\* what a variable keeps of a value
Keep(v) == Ext(W8(v), 16)
Fresh == [sym |-> <<>>, img |-> <<>>, open |-> FALSE]
\* the value x has where it is met
Here(s, x, bits) == EvalAll(Tokens(x), [rx |-> 10, bits |-> bits, sym |-> s.sym])
Exec(s, S, bits) ==
  IF s.open THEN s
  ELSE IF S.k = "jump" THEN [s EXCEPT !.img = @ \o Jump]
  ELSE LET r == TLCEval(Here(s, S.x, bits)) IN
    IF ~r.ok THEN [s EXCEPT !.open = TRUE]
    ELSE IF S.k = "set" THEN
      IF AssignOk(Tokens(S.x), r.v, bits) THEN [s EXCEPT !.sym = (S.v :> Keep(r.v)) @@ s.sym] ELSE [s EXCEPT !.open = TRUE]
    ELSE IF S.u = "if" THEN [s EXCEPT !.img = Append(@, IF IsZero(r.v) THEN 0 ELSE 1)]
    ELSE LET b == Item(r.v, IF S.u = "dq" THEN 8 ELSE 4) IN
      IF b = <<>> THEN [s EXCEPT !.open = TRUE] ELSE [s EXCEPT !.img = @ \o b]
=============================================================================
