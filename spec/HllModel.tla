------------------------------ MODULE HllModel ------------------------------
(* Every small structured program over one tested register (EBX), run by the  *)
(* steps of Hll with everything user statements may do to EBX. A second       *)
(* definition of what a program means, by recursion over its text (ExS), has *)
(* to give the same statements in the same order; the block stack has to stay *)
(* well formed. The behaviours are printed and run by the assembled code.     *)
EXTENDS Hll, Json
CONSTANTS Kinds, MaxMarks
Cmp1 == [k |-> "cmp", op |-> "==", a |-> [k |-> "r", n |-> "ebx", sz |-> 4, sg |-> 0], b |-> [k |-> "i", v |-> Bytes(1, 8), sz |-> 4, sg |-> 0], sg |-> FALSE]
No == [k |-> "none"]
CNot(c) == [k |-> "not", x |-> c]
U(id) == [op |-> "u", id |-> id]
(* blocks as lists of statements; user statements are numbered 40 + 8 * place *)
Leafs(lp, sw, id) == {U(id)} \union (IF lp \/ sw THEN {[op |-> "brk", c |-> No], [op |-> "brk", c |-> Cmp1]} ELSE {})
                             \union (IF lp THEN {[op |-> "cont", c |-> No], [op |-> "cont", c |-> Cmp1]} ELSE {})
Block1(lp, sw, id) == {<<U(id), x>> : x \in Leafs(lp, sw, id + 1)} \union {<<x, U(id)>> : x \in Leafs(lp, sw, id + 1) \ {U(id + 1)}} \union {<<>>}
LoopBlock1(id) == {<<U(id)>>} \union {<<U(id), x, U(id + 2)>> : x \in Leafs(TRUE, FALSE, id + 1)}
CaseOf(vs, b) == [vs |-> [q \in 1..Len(vs) |-> Bytes(vs[q], 8)], b |-> b, def |-> FALSE]
DefOf(b) == [vs |-> <<>>, b |-> b, def |-> TRUE]
OnBx == [k |-> "r", n |-> "ebx", sz |-> 4, sg |-> 0]
Inc == [a |-> OnBx, op |-> "=", b |-> [k |-> "i", v |-> Bytes(1, 8), sz |-> 4, sg |-> 0]]
Inners(lp, sw, id) ==
    {[op |-> "if", arms |-> <<[c |-> Cmp1, b |-> x]>>, els |-> y] : x \in Block1(lp, sw, id), y \in {<<>>, <<U(id + 4)>>}}
    \union {[op |-> "if", arms |-> <<[c |-> CNot(Cmp1), b |-> <<U(id)>>]>>, els |-> y] : y \in Block1(lp, sw, id + 4) \ {<<>>}}
    \union {[op |-> "while", c |-> Cmp1, b |-> x] : x \in LoopBlock1(id)}
    \union {[op |-> "repeat", c |-> Cmp1, b |-> x] : x \in LoopBlock1(id)}
    \union {[op |-> "for", init |-> <<>>, c |-> Cmp1, inc |-> <<Inc>>, b |-> x] : x \in LoopBlock1(id)}
    \union {[op |-> "switch", a |-> OnBx, style |-> st, cases |-> <<CaseOf(<<0>>, x), CaseOf(<<1>>, <<U(id + 4)>>)>> \o y] :
               st \in {"a", "c"}, x \in Block1(lp, TRUE, id), y \in {<<>>, <<DefOf(<<U(id + 5)>>)>>}}
Around(kind) ==
    CASE kind = "none" -> {<<x, U(60)>> : x \in Inners(FALSE, FALSE, 40)}
      [] kind = "if" -> {<<[op |-> "if", arms |-> <<[c |-> Cmp1, b |-> <<x>>], [c |-> CNot(Cmp1), b |-> <<U(61)>>]>>, els |-> <<>>], U(60)>> : x \in Inners(FALSE, FALSE, 40)}
      [] kind = "while" -> {<<[op |-> "while", c |-> Cmp1, b |-> <<U(62), x, U(61)>>], U(60)>> : x \in Inners(TRUE, FALSE, 40)}
      [] kind = "repeat" -> {<<[op |-> "repeat", c |-> Cmp1, b |-> <<U(62), x, U(61)>>], U(60)>> : x \in Inners(TRUE, FALSE, 40)}
      [] kind = "for" -> {<<[op |-> "for", init |-> <<Inc>>, c |-> Cmp1, inc |-> <<>>, b |-> <<U(62), x, U(61)>>], U(60)>> : x \in Inners(TRUE, FALSE, 40)}
      [] OTHER -> UNION {{<<[op |-> "switch", a |-> OnBx, style |-> st, cases |-> <<CaseOf(<<1, 2>>, <<x>>), CaseOf(<<0>>, <<U(61)>>)>>], U(60)>> :
                            x \in {z \in Inners(FALSE, TRUE, 40) : z.op # "switch" \/ z.style = st}} : st \in {"a", "c"}}
Programs == {<<U(39)>> \o p \o <<U(127)>> : p \in UNION {Around(kind) : kind \in Kinds}}

(* what a program means, by recursion. Values: the successive values of EBX;  *)
(* v the number of the present one. Gives <<how it ends, user statements, v>> *)
True1(vs, v) == vs[v] = 1
OK(c, vs, v) == CASE c.k = "none" -> TRUE [] c.k = "not" -> ~True1(vs, v) [] OTHER -> True1(vs, v)
\* o: "go", "brk", "cont", "cut" (nothing more is known)
RECURSIVE ExS(_, _, _), ExB(_, _, _, _), Loop(_, _, _, _), Fall(_, _, _, _)
ExB(b, q, vs, v) ==
    IF q > Len(b) THEN <<"go", <<>>, v, vs>>
    ELSE LET r == ExS(b[q], vs, v) IN
         IF r[1] # "go" THEN r ELSE LET r2 == ExB(b, q + 1, r[4], r[3]) IN <<r2[1], r[2] \o r2[2], r2[3], r2[4]>>
\* the loop S, its body entered
Loop(S, vs, v, ms) ==
    LET r == ExB(S.b, 1, vs, v)
        all == ms \o r[2]
        w == IF S.op = "for" THEN FoldLeft(LAMBDA t, a : [t EXCEPT ![r[3]] = 1], r[4], S.inc) ELSE r[4]
    IN IF r[1] = "cut" THEN <<"cut", all, r[3], r[4]>>
       ELSE IF r[1] = "brk" THEN <<"go", all, r[3], r[4]>>
       ELSE IF S.op = "repeat" THEN (IF OK(S.c, w, r[3]) THEN <<"go", all, r[3], w>> ELSE Loop(S, w, r[3], all))
       ELSE IF OK(S.c, w, r[3]) THEN Loop(S, w, r[3], all) ELSE <<"go", all, r[3], w>>
Fall(S, n, vs, v) ==
    LET r == ExB(S.cases[n].b, 1, vs, v) IN
    IF r[1] = "brk" THEN <<"go", r[2], r[3], r[4]>>
    ELSE IF r[1] # "go" \/ (S.style = "a" /\ Len(S.cases[n].b) > 0) \/ n = Len(S.cases) THEN r
    ELSE LET r2 == Fall(S, n + 1, r[4], r[3]) IN <<r2[1], r[2] \o r2[2], r2[3], r2[4]>>
ExS(S, vs, v) ==
    CASE S.op = "u" -> <<IF v = Len(vs) THEN "cut" ELSE "go", <<S.id>>, v + 1, vs>>
      [] S.op = "brk" -> <<IF OK(S.c, vs, v) THEN "brk" ELSE "go", <<>>, v, vs>>
      [] S.op = "cont" -> <<IF OK(S.c, vs, v) THEN "cont" ELSE "go", <<>>, v, vs>>
      [] S.op = "if" -> LET J == {j \in 1..Len(S.arms) : OK(S.arms[j].c, vs, v)} IN
                        IF J = {} THEN ExB(S.els, 1, vs, v) ELSE ExB(S.arms[CHOOSE j \in J : \A l \in J : j <= l].b, 1, vs, v)
      [] S.op = "while" -> IF OK(S.c, vs, v) THEN Loop(S, vs, v, <<>>) ELSE <<"go", <<>>, v, vs>>
      [] S.op = "for" -> LET w == FoldLeft(LAMBDA t, a : [t EXCEPT ![v] = 1], vs, S.init) IN IF OK(S.c, w, v) THEN Loop(S, w, v, <<>>) ELSE <<"go", <<>>, v, w>>
      [] S.op = "repeat" -> Loop(S, vs, v, <<>>)
      [] OTHER -> LET J == {j \in 1..Len(S.cases) : \E q \in 1..Len(S.cases[j].vs) : S.cases[j].vs[q] = Bytes(vs[v], 8)}
                      D == {j \in 1..Len(S.cases) : S.cases[j].def}
                      E == IF J # {} THEN J ELSE D
                  IN IF E = {} THEN <<"go", <<>>, v, vs>> ELSE Fall(S, CHOOSE j \in E : TRUE, vs, v)

VARIABLES p, s, vs, ms
vars == <<p, s, vs, ms>>
F0 == [z |-> FALSE, c |-> FALSE, s |-> FALSE, o |-> FALSE, p |-> FALSE, u |-> TRUE]
M0(v) == [r |-> [q \in 1..16 |-> IF q = 4 THEN Bytes(v, 8) ELSE Bytes(q, 8)], x |-> <<>>, f |-> F0, w |-> <<>>, top |-> 0, cxn |-> "ecx"]
SetBx(m, v) == [m EXCEPT !.r[4] = Bytes(v, 8), !.f.u = TRUE]
Values == {0, 1}
Init == /\ p \in Programs
        /\ s = H0(M0(0), p)
        /\ vs = <<0>>
        /\ ms = <<>>
\* on to the next user statement, which then leaves a value in EBX
Next == /\ Len(ms) < MaxMarks
        /\ s.sig # "end"
        /\ LET a == ToMark(s) IN
           IF a.sig = "mark" /\ a.at # 127
           THEN \E v \in Values : /\ s' = [a EXCEPT !.m = SetBx(@, v), !.sig = "run", !.unk = FALSE]
                                  /\ vs' = Append(vs, v)
                                  /\ ms' = Append(ms, a.at)
           ELSE /\ s' = [a EXCEPT !.sig = "end"] /\ vs' = vs /\ ms' = Append(ms, IF a.sig = "mark" THEN a.at ELSE 0)
        /\ p' = p
\* the two definitions agree on every behaviour
Agree == LET r == ExB(p, 1, vs, 1) IN
         /\ Len(r[2]) >= Len(ms)
         /\ SubSeq(r[2], 1, Len(ms)) = ms
         /\ s.sig = "end" => r[2] = ms
\* the block stack: a block is one of the blocks of the statement it stands in
Within(b, x) == \E q \in 1..Len(b) : CASE b[q].op = "if" -> x = b[q].els \/ \E j \in 1..Len(b[q].arms) : x = b[q].arms[j].b
                                       [] b[q].op = "switch" -> \E j \in 1..Len(b[q].cases) : x = b[q].cases[j].b
                                       [] b[q].op \in {"while", "repeat", "for"} -> x = b[q].b
                                       [] OTHER -> FALSE
Nested == /\ \A j \in 1..(Len(s.k) - 1) : Within(s.k[j].b, s.k[j + 1].b)
          /\ s.sig = "end" => Len(s.k) = 1 /\ ms # <<>> /\ ms[Len(ms)] = 127
Inv == (s.sig = "end" \/ Len(ms) = MaxMarks) => PrintT(<<"@P", 1, ToJson([p |-> p, vs |-> vs, ms |-> ms])>>)
=============================================================================
