----------------------------- MODULE ScopeModel -----------------------------
(* All sources of up to K statements over two names; the operational meaning  *)
(* (one table, filled in order, looked up at the end) is compared with what   *)
(* the text says: regions between PROC and ENDP, and nearest labels.          *)
EXTENDS Scope, Json
CONSTANT K
VARIABLES prog, s
vars == <<prog, s>>
N(x) == [b |-> x, v |-> 0]
Y == [b |-> "x", v |-> 1]
X == N("x")
P(k) == [op |-> "proc", n |-> N(k), ps |-> <<>>]
Alphabet == {[op |-> "endp"], [op |-> "lab", n |-> X], [op |-> "lab", n |-> Y], [op |-> "glab", n |-> X], [op |-> "data", n |-> X],
             [op |-> "dd", n |-> X], [op |-> "lea", n |-> Y], [op |-> "anon"], [op |-> "back"], [op |-> "fwd"],
             [op |-> "local", n |-> X]} \cup {[op |-> "proc", n |-> N("p"), ps |-> q] : q \in {<<>>, <<X>>}}
Init == prog = <<>> /\ \E cs \in BOOLEAN : s = Start(cs)
Cnt(op) == Len(SelectSeq(prog, LAMBDA S : S.op = op))
Fits(S) == CASE S.op = "proc" -> s.in = 0 /\ Cnt("proc") < 2
             [] S.op = "endp" -> s.in # 0
             [] S.op = "local" -> s.in # 0 /\ prog[Len(prog)].op \in {"proc", "local"}
             [] OTHER -> TRUE
Named(S) == IF S.op = "proc" THEN [S EXCEPT !.n = N("p" \o ToString(Cnt("proc")))] ELSE S
Next == /\ s.err = 0 /\ Len(prog) < K
        /\ \E S \in Alphabet : Fits(S) /\ prog' = Append(prog, Named(S)) /\ s' = TLCEval(Step(s, Named(S), Len(prog) + 1))
Ended == s.in = 0 \/ s.err # 0
----
\* the same, told from the text alone
Op(k) == prog[k].op
Inside(k) == \* the PROC statement whose body holds statement k, or 0
  LET ps == {j \in 1..k : Op(j) = "proc" /\ \A e \in j..(k - 1) : Op(e) # "endp"} IN IF ps = {} THEN 0 ELSE CHOOSE j \in ps : \A m \in ps : j >= m
IsDef(k) == Op(k) \in {"lab", "glab", "data", "local"}
Params(k) == IF Op(k) = "proc" THEN prog[k].ps ELSE <<>>
Local(k) == (Op(k) = "lab" /\ Inside(k) # 0) \/ Op(k) = "local"
Eq(a, b) == Same(s.cs, a, b)
OwnDefs(p, n) == {k \in DOMAIN prog : p # 0 /\ IsDef(k) /\ Local(k) /\ Inside(k) = p /\ Eq(prog[k].n, n)}
                 \cup (IF p # 0 /\ \E q \in DOMAIN Params(p) : Eq(Params(p)[q], n) THEN {p} ELSE {})
AllDefs(n) == {k \in DOMAIN prog : (IsDef(k) /\ ~Local(k) /\ Eq(prog[k].n, n)) \/ (Op(k) = "proc" /\ Eq(prog[k].n, n))}
Meant(k) == LET o == OwnDefs(Inside(k), prog[k].n) IN IF o # {} THEN o ELSE AllDefs(prog[k].n)
RefAt(k) == LET f == SelectSeq(s.img, LAMBDA x : x[1] = "r" /\ x[2].pc = k) IN f[1][2]
\* size of what precedes statement k
RECURSIVE At(_)
At(k) == IF k = 1 THEN 0
         ELSE At(k - 1) + (CASE Op(k - 1) \in {"data", "dd", "back", "fwd"} -> 4
                             [] Op(k - 1) = "lea" -> IF \E d \in OwnDefs(Inside(k - 1), prog[k - 1].n) : Op(d) \in {"local", "proc"} THEN 3 ELSE 6
                             [] OTHER -> 0)
Nearest(k, j) == Denotes(s, RefAt(k)) = IF Inside(j) \in {0, Inside(k)} THEN <<"label", At(j)>> ELSE <<"none", 0>>
Good == s.err = 0 =>
  /\ \A a, b \in DOMAIN prog : (a < b /\ IsDef(a) /\ IsDef(b) /\ Eq(prog[a].n, prog[b].n)) =>
        (Local(a) /\ (Inside(a) # Inside(b)))              \* else it is a second definition
  /\ \A k \in DOMAIN prog : Op(k) \in {"dd", "lea"} =>
        LET m == Meant(k)  d == Denotes(s, RefAt(k)) IN
        /\ Cardinality(m) <= 1
        /\ IF m = {} THEN d[1] = "none"
           ELSE LET j == CHOOSE j \in m : TRUE IN
                IF Op(j) = "local" \/ (Op(j) = "proc" /\ ~Eq(prog[j].n, prog[k].n)) THEN d[1] = "stack" ELSE d = <<"label", At(j)>>
  /\ \A k \in DOMAIN prog : Op(k) = "back" =>
        LET q == {j \in 1..k : Op(j) = "anon"} IN
        IF q = {} THEN Denotes(s, RefAt(k))[1] = "none" ELSE Nearest(k, CHOOSE j \in q : \A m \in q : m <= j)
  /\ \A k \in DOMAIN prog : Op(k) = "fwd" =>
        LET q == {j \in k..Len(prog) : Op(j) = "anon"} IN
        IF q = {} THEN Denotes(s, RefAt(k))[1] = "none" ELSE Nearest(k, CHOOSE j \in q : \A m \in q : m >= j)
Second == s.err # 0 => \E a \in 1..(Len(prog) - 1) : LET b == Len(prog) IN
  \/ IsDef(b) /\ IsDef(a) /\ Eq(prog[a].n, prog[b].n) /\ ~(Local(a) /\ Inside(a) # Inside(b))
  \/ IsDef(b) /\ \E q \in DOMAIN Params(a) : Inside(b) = a /\ Eq(Params(a)[q], prog[b].n)
  \/ Op(b) = "proc" /\ IsDef(a) /\ ~Local(a) /\ \E q \in DOMAIN Params(b) : Eq(Params(b)[q], prog[a].n)
Inv == Ended => /\ Good /\ Second
                /\ (Len(prog) = K \/ s.err # 0) => PrintT(<<"@S", 0, ToJson([prog |-> prog, cs |-> s.cs, v |-> Verdict(s)])>>)
=============================================================================
