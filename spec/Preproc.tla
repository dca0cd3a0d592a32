------------------------------ MODULE Preproc ------------------------------
(* The macro assembler as a line interpreter: conditional assembly, macros,*)
(* loop blocks, equates and text macros. One Step consumes one source line *)
(* (or one pending line whose macro function calls are being expanded).    *)
(*                                                                         *)
(* State m:                                                                *)
(*  fr  stack of input frames (file, macro, function, loop), last is top   *)
(*  cs  stack of open conditional blocks                                   *)
(*        on   : the branch being assembled      seek : no branch yet      *)
(*        done : a branch was taken              dead : inside skipped text*)
(*  mac macro table   sym symbol table   lcl number of LOCAL names used    *)
(*  out bytes emitted   err <<line, number>> of diagnostics  wrn warnings  *)
(*  fwd <<position in out, name, size, line>> of names not yet defined     *)
(*  pend a line being expanded: [l |-> text, at |-> scan from here]        *)
EXTENDS Expr

CONSTANT Fuel          \* bound on the number of steps of one program

Emp == [x \in {} |-> 0]
NoPend == [on |-> FALSE, l |-> "", at |-> 1]

Frame(k, body, env, cd) ==
  [k |-> k, body |-> body, pos |-> 1, env |-> env, cd |-> cd, its |-> <<>>,
   wh |-> "", loc |-> <<>>, pre |-> "", post |-> "", at |-> 1]

InitM(lines) ==
  [fr |-> <<Frame("file", lines, Emp, 0)>>, cs |-> <<>>, mac |-> Emp, sym |-> Emp,
   lcl |-> 0, out |-> <<>>, err |-> <<>>, wrn |-> <<>>, fwd |-> <<>>, pend |-> NoPend, lno |-> 0, done |-> FALSE,
   steps |-> 0, cur |-> ""]

Top(m) == m.fr[Len(m.fr)]
SetTop(m, f) == [m EXCEPT !.fr = SubSeq(m.fr, 1, Len(m.fr) - 1) \o <<f>>]
Err(m, code) == [m EXCEPT !.err = Append(@, <<m.lno, code, m.cur>>)]
Active(m) == m.cs = <<>> \/ m.cs[Len(m.cs)].st = "on"

LoopDirs == {"repeat", "rept", "while", "for", "forc", "irp", "irpc"}
IfDirs == {"if","ife","ifdef","ifndef","ifb","ifnb","ifidn","ifidni","ifdif","ifdifi","if1","if2"}
ElifOf == [elseif |-> "if", elseife |-> "ife", elseifdef |-> "ifdef", elseifndef |-> "ifndef",
           elseifb |-> "ifb", elseifnb |-> "ifnb", elseifidn |-> "ifidn", elseifidni |-> "ifidni",
           elseifdif |-> "ifdif", elseifdifi |-> "ifdifi"]
ElifDirs == DOMAIN ElifOf
StrDirs == {"catstr", "textequ", "substr", "sizestr", "instr"}

------------------------------------------------------------------------
(* Substitution of parameters and LOCAL names in one line. Inside quotes  *)
(* only names with an adjacent '&' are replaced; an adjacent '&' vanishes.*)
RECURSIVE Sub(_, _, _, _, _)
\* i: position, q: quote character or "", acc: output so far
Sub(s, env, i, q, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == Ch(s, i) IN
    IF c \in Digits
    THEN LET e == SkipIn(s, i, IdChars) IN Sub(s, env, e, q, acc \o SubSeq(s, i, e - 1))
    ELSE IF c \in IdFirst
    THEN LET e == SkipIn(s, i, IdChars)
             w == SubSeq(s, i, e - 1)
             ampL == acc # "" /\ Ch(s, i - 1) = "&" /\ Ch(acc, Len(acc)) = "&"
             ampR == e <= Len(s) /\ Ch(s, e) = "&"
         IN IF (q = "" \/ ampL \/ ampR) /\ w \in DOMAIN env
            THEN Sub(s, env, IF ampR THEN e + 1 ELSE e, q,
                     (IF ampL THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc) \o env[w])
            ELSE Sub(s, env, e, q, acc \o w)
    ELSE IF c = "!" /\ q = "" /\ i < Len(s) /\ Ch(s, i + 1) \in {"<", ">", "\"", "'"}
    THEN Sub(s, env, i + 2, q, acc \o SubSeq(s, i, i + 1))
    ELSE IF c \in {"\"", "'"}
    THEN Sub(s, env, i + 1, IF q = "" THEN c ELSE IF q = c THEN "" ELSE q, acc \o c)
    ELSE Sub(s, env, i + 1, q, acc \o c)
Subst(s, env) == IF DOMAIN env = {} THEN s ELSE Sub(s, env, 1, "", "")

------------------------------------------------------------------------
(* Text macros                                                            *)
IsText(m, t) == t.k = "id" /\ t.t \in DOMAIN m.sym /\ m.sym[t.t].k = "text"
BuiltIn == {"@catstr", "@substr", "@sizestr", "@instr"}
IsFun(m, T, j) == /\ T[j].k = "id" /\ (T[j].t \in BuiltIn \/ (T[j].t \in DOMAIN m.mac /\ m.mac[T[j].t].fun))
                  /\ j < Len(T) /\ T[j + 1].t = "("
\* replaces text macros in a piece of text until there are none
RECURSIVE TextExp(_, _)
TextExp(m, s) ==
  LET T == Tokens(s)
      J == {j \in DOMAIN T : IsText(m, T[j])}
  IN IF J = {} THEN s
     ELSE LET j == CHOOSE j \in J : \A k \in J : j <= k
          IN TextExp(m, Upto(s, T[j].p - 1) \o m.sym[T[j].t].v \o From(s, T[j].e))

RECURSIVE Bang(_)
Bang(s) == IF s = "" THEN "" ELSE
           (IF Ch(s, 1) \in {"<", ">", "!"} THEN "!" ELSE "") \o Ch(s, 1) \o Bang(From(s, 2))

\* token index of the ")" that closes the "(" at token j
RECURSIVE CloseTok(_, _, _)
CloseTok(T, j, lvl) == IF j > Len(T) THEN 0
  ELSE IF T[j].t = "(" THEN CloseTok(T, j + 1, lvl + 1)
  ELSE IF T[j].t = ")" THEN (IF lvl = 1 THEN j ELSE CloseTok(T, j + 1, lvl - 1))
  ELSE CloseTok(T, j + 1, lvl)

\* the call to run first among the tokens j..e: leftmost, its arguments' calls before it
RECURSIVE FirstCall(_, _, _, _)
FirstCall(m, T, j, e) ==
  IF j > e THEN 0
  ELSE IF IsFun(m, T, j)
       THEN LET c == CloseTok(T, j + 1, 0)
                k == IF c = 0 THEN 0 ELSE FirstCall(m, T, j + 2, c - 1)
            IN IF c = 0 THEN 0 ELSE IF k # 0 THEN k ELSE j
       ELSE FirstCall(m, T, j + 1, e)

\* what to expand next in a line, scanning from position at:
\* [k |-> "none"] or a text macro / macro function at token j
NextExp(m, T, at, funOnly) ==
  LET J == {j \in DOMAIN T : T[j].p >= at /\ ((~funOnly /\ IsText(m, T[j])) \/ IsFun(m, T, j))}
  IN IF J = {} THEN [k |-> "none", j |-> 0, at |-> 0]
     ELSE LET j == CHOOSE j \in J : \A k \in J : j <= k IN
          IF IsText(m, T[j]) THEN [k |-> "text", j |-> j, at |-> 0]
          ELSE LET c == FirstCall(m, T, j, Len(T)) IN
               IF c = 0 THEN [k |-> "none", j |-> 0, at |-> 0]
               ELSE [k |-> "fun", j |-> c, at |-> T[j].p]

------------------------------------------------------------------------
(* Arguments of macro calls. s: the text behind the macro name (for a     *)
(* function: between its parentheses). Result: sequence of argument texts.*)
\* split at top-level commas -> sequence of strings
RECURSIVE SplitC(_, _, _)
SplitC(T, s, from) ==
  LET J == {j \in DOMAIN T : T[j].p >= from /\ T[j].t = ","} IN
  IF J = {} THEN <<From(s, from)>>
  ELSE LET j == CHOOSE j \in J : \A k \in J : j <= k
       IN <<SubSeq(s, from, T[j].p - 1)>> \o SplitC(T, s, T[j].e)
NoComment(s) == LET T == Tokens(s) IN IF T = <<>> THEN "" ELSE Upto(s, T[Len(T)].e - 1)

\* text of one argument: <..> loses its brackets, the rest is copied
RECURSIVE Unang(_, _, _)
Unang(T, s, j) ==
  IF j > Len(T) THEN ""
  ELSE LET nx == IF j = Len(T) THEN T[j].e ELSE T[j + 1].p
           gap == SubSeq(s, T[j].e, nx - 1)
       IN IF T[j].k = "ang" THEN T[j].v \o Unang(T, s, j + 1)
          ELSE T[j].t \o gap \o Unang(T, s, j + 1)

\* decimal digits of v as a 32-bit unsigned number
Str32(v) == IF v >= 0 THEN Str(v)
            ELSE LET n == -v
                     lo == 96 - (n % 100)
                     bor == IF lo < 0 THEN 1 ELSE 0
                     l == lo + 100 * bor
                 IN Str(42949672 - (n \div 100) - bor) \o (IF l < 10 THEN "0" ELSE "") \o Str(l)

\* uns: numbers are written as unsigned 32-bit ones (string directives)
ArgText(m, s0, uns) ==
  LET s == Trim(s0) IN
  IF s = "" THEN [blank |-> TRUE, v |-> ""]
  ELSE IF Ch(s, 1) = "%"
  THEN LET r == Trim(From(s, 2))  T == Tokens(r) IN
       \* a text macro and words only: the text; anything else is evaluated
       IF T # <<>> /\ IsText(m, T[1]) /\ (IF uns THEN Len(T) = 1 ELSE \A k \in DOMAIN T : T[k].k = "id")
       THEN [blank |-> FALSE, v |-> TextExp(m, r)]
       ELSE LET x == EvalAll(Tokens(TextExp(m, r)), m.sym)
            IN [blank |-> FALSE, v |-> IF ~x.ok THEN "0" ELSE IF uns THEN Str32(x.v) ELSE Str(x.v)]
  ELSE [blank |-> FALSE, v |-> Unang(Tokens(s), s, 1)]

Args(m, s) == IF IsBlank(s) THEN <<>>
              ELSE LET p == SplitC(Tokens(s), s, 1) IN [i \in DOMAIN p |-> ArgText(m, p[i], FALSE)]

\* parameters of a MACRO line: tokens from j
RECURSIVE Params(_, _)
Params(T, j) ==
  IF j > Len(T) THEN <<>>
  ELSE LET nm == T[j].t
           P(r, v, d) == [n |-> nm, req |-> r, va |-> v, d |-> d]
       IN IF j < Len(T) /\ T[j + 1].t = ":"
          THEN IF T[j + 2].t = "=" THEN <<P(FALSE, FALSE, T[j + 3].v)>> \o Params(T, j + 5)
               ELSE IF T[j + 2].t = "req" THEN <<P(TRUE, FALSE, "")>> \o Params(T, j + 4)
               ELSE <<P(FALSE, TRUE, "")>>
          ELSE <<P(FALSE, FALSE, "")>> \o Params(T, j + 2)

VarJoin(A, i) == JoinWith([k \in 1..(Len(A) - i + 1) |-> A[i + k - 1].v], ",")
\* binding of parameters to arguments -> [ok, env]
Bind(P, A) ==
  LET val(i) == IF P[i].va THEN (IF i > Len(A) THEN "" ELSE VarJoin(A, i))
                ELSE IF i > Len(A) \/ A[i].blank THEN P[i].d ELSE A[i].v
      miss == {i \in DOMAIN P : P[i].req /\ (i > Len(A) \/ A[i].blank)}
  IN [ok |-> miss = {},
      env |-> [n \in {P[i].n : i \in DOMAIN P} |-> val(CHOOSE i \in DOMAIN P : P[i].n = n)]]

LocEnv(m, loc) == [n \in {loc[i] : i \in DOMAIN loc} |->
                   "??" \o Hex4(m.lcl + (CHOOSE i \in DOMAIN loc : loc[i] = n) - 1)]

StrItem(m, s) == \* operand of CATSTR and friends
  LET T == Tokens(s) IN
  IF T # <<>> /\ T[1].k = "ang" THEN T[1].v ELSE ArgText(m, s, TRUE).v

------------------------------------------------------------------------
(* Bodies                                                                 *)
First(T) == IF T = <<>> THEN "" ELSE T[1].t
Second(T) == IF Len(T) < 2 THEN "" ELSE T[2].t
\* reads lines from frame f on until the matching ENDM
RECURSIVE Collect(_, _, _, _)
Collect(f, pos, lvl, acc) ==
  IF pos > Len(f.body) THEN [ok |-> FALSE, body |-> acc, next |-> pos]
  ELSE LET l == Subst(f.body[pos], f.env)  T == Tokens(l) IN
       IF First(T) = "endm"
       THEN IF lvl = 0 THEN [ok |-> TRUE, body |-> acc, next |-> pos + 1]
            ELSE Collect(f, pos + 1, lvl - 1, Append(acc, l))
       ELSE IF T = <<>> THEN Collect(f, pos + 1, lvl, acc)
       ELSE IF First(T) \in LoopDirs \/ Second(T) = "macro"
       THEN Collect(f, pos + 1, lvl + 1, Append(acc, l))
       ELSE Collect(f, pos + 1, lvl, Append(acc, l))

\* leading LOCAL lines -> names, rest
RECURSIVE Locals(_, _)
Locals(body, acc) ==
  IF body = <<>> \/ First(Tokens(body[1])) # "local" THEN [loc |-> acc, body |-> body]
  ELSE LET T == Tokens(body[1])
           ids == SelectSeq(Tail(T), LAMBDA x : x.k = "id")
       IN Locals(Tail(body), acc \o [i \in DOMAIN ids |-> ids[i].t])

\* does the body return text (EXITM with an argument outside of loops)?
RECURSIVE IsFunBody(_, _, _)
IsFunBody(body, i, lvl) ==
  IF i > Len(body) THEN FALSE
  ELSE LET T == Tokens(body[i]) IN
       IF First(T) = "exitm" /\ lvl = 0 /\ Len(T) > 1 THEN TRUE
       ELSE IF First(T) \in LoopDirs \/ Second(T) = "macro" THEN IsFunBody(body, i + 1, lvl + 1)
       ELSE IF First(T) = "endm" THEN IsFunBody(body, i + 1, lvl - 1)
       ELSE IsFunBody(body, i + 1, lvl)

------------------------------------------------------------------------
(* Frames                                                                 *)
PopFrame(m) == [m EXCEPT !.fr = SubSeq(m.fr, 1, Len(m.fr) - 1)]

\* one more iteration of the loop on top, or its end
NextIter(m) ==
  LET f == Top(m) IN
  IF f.wh # "" THEN
     LET x == EvalAll(Tokens(TextExp(m, f.wh)), m.sym) IN
     IF x.ok /\ x.v # 0
     THEN [SetTop(m, [f EXCEPT !.pos = 1, !.env = LocEnv(m, f.loc)]) EXCEPT !.lcl = @ + Len(f.loc)]
     ELSE PopFrame(m)
  ELSE IF f.its = <<>> THEN PopFrame(m)
  ELSE LET it == Head(f.its)
           a == IF it.arg THEN ArgText(m, it.v, FALSE) ELSE [blank |-> FALSE, v |-> it.v]
           v == IF a.blank THEN it.d ELSE a.v
           e == IF it.n = "" THEN Emp ELSE (it.n :> v)
       IN IF it.req /\ a.blank THEN Err(PopFrame(m), 2087)
          ELSE [SetTop(m, [f EXCEPT !.pos = 1, !.its = Tail(@), !.env = e @@ LocEnv(m, f.loc)])
                EXCEPT !.lcl = @ + Len(f.loc)]

\* one iteration to come: parameter n is bound to v; arg: v is an argument,
\* whose % expressions are evaluated when its turn comes
Iter(n, v, arg, req, d) == [n |-> n, v |-> v, arg |-> arg, req |-> req, d |-> d]

StartLoop(m, body, its, wh) ==
  LET L == Locals(body, <<>>)
      f == [Frame("loop", L.body, Emp, Len(m.cs)) EXCEPT !.its = its, !.wh = wh, !.loc = L.loc]
  IN IF L.body = <<>> THEN m
     ELSE NextIter([m EXCEPT !.fr = Append(@, f)])

\* a macro function has come to its end: its text replaces the call
EndFun(m, f, text) ==
  [PopFrame(m) EXCEPT !.pend = [on |-> TRUE, l |-> f.pre \o text \o f.post, at |-> f.at]]

StartMacro(m, name, args, k, pre, post, at) ==
  LET d == m.mac[name]
      A == Args(m, args)
      b == Bind(d.par, A)
      env == b.env @@ LocEnv(m, d.loc)
      f == [Frame(k, d.body, env, Len(m.cs)) EXCEPT !.pre = pre, !.post = post, !.at = at]
      m1 == IF Len(A) > Len(d.par) /\ ~(\E i \in DOMAIN d.par : d.par[i].va)
            THEN [m EXCEPT !.wrn = Append(@, <<m.lno, 4150>>)] ELSE m
  IN IF ~b.ok THEN Err([m EXCEPT !.pend = NoPend], 2221)
     ELSE [m1 EXCEPT !.fr = Append(@, f), !.lcl = @ + Len(d.loc), !.pend = NoPend]

\* EXITM ends the innermost expansion, conditional blocks opened in it included
DoExitm(m, text) ==
  LET f == Top(m)
      m1 == [m EXCEPT !.cs = SubSeq(@, 1, f.cd)]
  IN IF f.k = "fun" THEN EndFun(m1, f, text) ELSE PopFrame(m1)

------------------------------------------------------------------------
(* Conditions                                                             *)
Defined(m, n) == n \in DOMAIN m.sym \/ n \in DOMAIN m.mac
TextItem(m, s) == \* a literal, or a text macro (whose text is taken)
  LET T == Tokens(s) IN
  IF T = <<>> THEN "" ELSE IF T[1].k = "ang" THEN T[1].v ELSE Trim(s)

Cond(m, d, s) ==
  LET T == Tokens(s)
      P == SplitC(T, s, 1)
  IN CASE d \in {"if", "ife"} ->
            LET x == EvalAll(T, m.sym) IN
            [ok |-> x.ok, v |-> IF d = "if" THEN x.v # 0 ELSE x.v = 0]
       [] d = "ifdef" -> [ok |-> TRUE, v |-> T # <<>> /\ Defined(m, T[1].t)]
       [] d = "ifndef" -> [ok |-> TRUE, v |-> T = <<>> \/ ~Defined(m, T[1].t)]
       [] d = "ifb" -> [ok |-> TRUE, v |-> IsBlank(TextItem(m, s))]
       [] d = "ifnb" -> [ok |-> TRUE, v |-> ~IsBlank(TextItem(m, s))]
       [] d \in {"ifidn", "ifdif"} ->
            [ok |-> Len(P) = 2, v |-> (TextItem(m, P[1]) = TextItem(m, P[2])) = (d = "ifidn")]
       [] d \in {"ifidni", "ifdifi"} ->
            [ok |-> Len(P) = 2, v |-> (Lower(TextItem(m, P[1])) = Lower(TextItem(m, P[2]))) = (d = "ifidni")]
       [] d = "if1" -> [ok |-> TRUE, v |-> TRUE]

Push(m, st) == [m EXCEPT !.cs = Append(@, [st |-> st, els |-> FALSE])]
SetCs(m, c) == [m EXCEPT !.cs = SubSeq(@, 1, Len(@) - 1) \o <<c>>]

------------------------------------------------------------------------
(* One complete, expanded line                                            *)
SetSym(m, n, v) == [m EXCEPT !.sym = (n :> v) @@ @]

DoStrDir(m, T, s) ==
  LET n == T[1].t
      d == T[2].t
      rest == From(s, T[2].e)
      P == IF IsBlank(rest) THEN <<>> ELSE SplitC(Tokens(rest), rest, 1)
      num(x) == EvalAll(Tokens(x), m.sym).v
  IN CASE d \in {"catstr", "textequ"} ->
            SetSym(m, n, [k |-> "text", v |-> JoinWith([i \in DOMAIN P |-> StrItem(m, P[i])], "")])
       [] d = "sizestr" -> SetSym(m, n, [k |-> "var", v |-> Len(StrItem(m, P[1]))])
       [] d = "substr" ->
            LET x == StrItem(m, P[1])  p == num(P[2])
                c == IF Len(P) = 3 THEN num(P[3]) ELSE Len(x) - p + 1
            IN IF p < 1 THEN Err(m, 2176)
               ELSE IF p > Len(x) THEN Err(m, 2207)
               ELSE IF c < 0 THEN Err(m, 2209)
               ELSE IF p + c - 1 > Len(x) THEN Err(m, 2208)
               ELSE SetSym(m, n, [k |-> "text", v |-> SubSeq(x, p, p + c - 1)])
       [] d = "instr" ->
            LET st == IF Len(P) = 3 THEN num(P[1]) ELSE 1
                x == StrItem(m, P[Len(P) - 1])  y == StrItem(m, P[Len(P)])
            IN SetSym(m, n, [k |-> "var", v |-> IF y = "" THEN 0 ELSE IndexOf(x, y, st)])

\* the predefined functions -> [code, v]
BuiltInFun(m, n, A) ==
  LET R(c, v) == [code |-> c, v |-> v]
      num(i) == EvalAll(Tokens(A[i].v), m.sym)
      has(i) == i <= Len(A) /\ ~A[i].blank
      str(i) == IF i <= Len(A) THEN A[i].v ELSE ""
  IN CASE n = "@catstr" -> R(0, JoinWith([i \in DOMAIN A |-> A[i].v], ""))
       [] n = "@sizestr" -> R(0, Str(Len(str(1))))
       [] n = "@instr" ->
            LET st == IF has(1) THEN (IF num(1).v = 0 THEN 1 ELSE num(1).v) ELSE 1
            IN IF st > Len(str(2)) THEN R(2207, "")
               ELSE R(0, Str(IF str(3) = "" THEN 0 ELSE IndexOf(str(2), str(3), st)))
       [] n = "@substr" ->
            LET p == IF num(2).v = 0 THEN 1 ELSE num(2).v
                mx == Len(str(1)) - p + 1
                c == IF has(3) THEN num(3).v ELSE mx
            IN IF p < 0 \/ p > Len(str(1)) THEN R(2207, "")
               ELSE IF c < 0 THEN R(2092, "")
               ELSE IF c > mx THEN R(2208, "")
               ELSE R(0, SubSeq(str(1), p, p + c - 1))

Byte(v) == v % 256
LE(v, n) == [i \in 1..n |-> (v \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 256
                             ELSE IF i = 3 THEN 65536 ELSE 16777216)) % 256]
DataSize(d) == CASE d = "db" -> 1 [] d = "dw" -> 2 [] d = "dd" -> 4
\* items of a data line -> [ok, b]
RECURSIVE Items(_, _, _, _)
Items(m, P, n, acc) ==
  IF P = <<>> THEN [ok |-> TRUE, b |-> acc, code |-> 0, fwd |-> <<>>]
  ELSE LET T == Tokens(P[1]) IN
       IF Len(T) = 1 /\ T[1].k = "str" /\ T[1].v = "" THEN [ok |-> FALSE, b |-> acc, code |-> 2164, fwd |-> <<>>]
       ELSE IF Len(T) = 1 /\ T[1].k = "str" /\ n = 1 THEN Items(m, Tail(P), n, acc \o Codes(T[1].v))
       ELSE LET x == EvalAll(T, m.sym) IN
            IF ~x.ok /\ Len(T) = 1 /\ T[1].k = "id" /\ ~Defined(m, T[1].t)
            THEN LET r == Items(m, Tail(P), n, acc \o [i \in 1..n |-> 0])
                 IN [r EXCEPT !.fwd = <<<<Len(m.out) + Len(acc), T[1].t, n, m.lno>>>> \o @]
            ELSE IF ~x.ok THEN [ok |-> FALSE, b |-> acc, code |-> 0, fwd |-> <<>>]
            ELSE Items(m, Tail(P), n, acc \o LE(x.v, n))

ExecLine(m, s) ==
  LET T == Tokens(s)
      d == First(T)
      rest == IF T = <<>> THEN "" ELSE From(NoComment(s), T[1].e)
  IN IF T = <<>> THEN m
     ELSE IF d \in {"db", "dw", "dd"} THEN
        LET x == Items(m, SplitC(Tokens(rest), rest, 1), DataSize(d), <<>>)
        IN IF x.ok THEN [m EXCEPT !.out = @ \o x.b, !.fwd = @ \o x.fwd] ELSE Err(m, x.code)
     ELSE IF d = ".err" THEN Err(m, 2114)
     ELSE IF d = "purge" THEN
        LET N == {T[i].t : i \in {i \in DOMAIN T : i > 1 /\ T[i].k = "id"}}
        IN [m EXCEPT !.mac = [x \in DOMAIN @ |-> IF x \in N THEN [@[x] EXCEPT !.purged = TRUE] ELSE @[x]]]
     ELSE IF Second(T) = "=" THEN
        LET x == EvalAll(Tokens(From(NoComment(s), T[2].e)), m.sym) IN
        IF ~x.ok THEN Err(m, 0)
        ELSE IF (d \in DOMAIN m.sym /\ m.sym[d].k # "var") \/ d \in DOMAIN m.mac THEN Err(m, 2143)
        ELSE SetSym(m, d, [k |-> "var", v |-> x.v])
     ELSE IF Second(T) \in StrDirs THEN
        IF (d \in DOMAIN m.sym /\ m.sym[d].k # (IF Second(T) \in {"sizestr", "instr"} THEN "var" ELSE "text"))
           \/ d \in DOMAIN m.mac
        THEN Err(m, 2143)
        ELSE DoStrDir(m, T, NoComment(s))
     ELSE Err(m, 0)

DoEqu(m, T, s) ==
  LET n == T[1].t
      rest == Trim(From(NoComment(s), T[2].e))
      R == Tokens(rest)
  IN IF Len(R) = 1 /\ R[1].k = "ang" THEN
        IF (n \in DOMAIN m.sym /\ m.sym[n].k # "text") \/ n \in DOMAIN m.mac
        THEN Err(m, 2143)
        ELSE SetSym(m, n, [k |-> "text", v |-> R[1].v])
     ELSE LET x == EvalAll(Tokens(TextExp(m, rest)), m.sym) IN
          IF ~x.ok THEN Err(m, 0)
          ELSE IF n \in DOMAIN m.sym /\ ~(m.sym[n].k = "const" /\ m.sym[n].v = x.v) THEN Err(m, 2143)
          ELSE SetSym(m, n, [k |-> "const", v |-> x.v])

------------------------------------------------------------------------
(* Directives that need the raw line                                      *)
\* characters of a FORC argument
RECURSIVE ForcChars(_)
ForcChars(s) == IF s = "" THEN <<>>
  ELSE IF Ch(s, 1) = "!" /\ Len(s) > 1 THEN <<SubSeq(s, 2, 2)>> \o ForcChars(From(s, 3))
  ELSE <<Ch(s, 1)>> \o ForcChars(From(s, 2))

LoopLine(m, T, s) ==
  LET d == T[1].t
      f == Top(m)
      c == Collect(f, f.pos, 0, <<>>)
      m1 == [SetTop(m, [f EXCEPT !.pos = c.next]) EXCEPT
              !.lno = IF f.k = "file" THEN c.next - 1 ELSE @]
      rest == From(NoComment(s), T[1].e)
  IN IF ~c.ok THEN [Err(m1, 1163) EXCEPT !.done = TRUE]
     ELSE IF d \in {"repeat", "rept"} THEN
        LET x == EvalAll(Tokens(rest), m.sym) IN
        IF ~x.ok THEN Err(m1, 0)
        ELSE StartLoop(m1, c.body, [i \in 1..(IF x.v > 0 THEN x.v ELSE 0) |-> Iter("", "", FALSE, FALSE, "")], "")
     ELSE IF d = "while" THEN StartLoop(m1, c.body, <<>>, rest)
     ELSE LET p == T[2].t
              P == SplitC(Tokens(rest), rest, 1)
              lit == Trim(From(rest, Tokens(rest)[CHOOSE j \in DOMAIN Tokens(rest) :
                       /\ Tokens(rest)[j].t = "," /\ \A k \in 1..(j-1) : Tokens(rest)[k].t # ","].e))
              hd == Tokens(P[1])
              req == Len(hd) > 2 /\ hd[3].t = "req"
              dfl == IF Len(hd) > 3 /\ hd[3].t = "=" THEN hd[4].v ELSE ""
              L == Tokens(lit)
          IN IF d \in {"forc", "irpc"} THEN
                LET chars == IF L # <<>> /\ L[1].k = "ang"
                             THEN ForcChars(SubSeq(L[1].t, 2, Len(L[1].t) - 1))
                             ELSE ForcChars(lit)
                IN StartLoop(m1, c.body, [i \in DOMAIN chars |-> Iter(p, chars[i], FALSE, FALSE, "")], "")
             ELSE LET A == IF IsBlank(L[1].v) THEN <<>> ELSE SplitC(Tokens(L[1].v), L[1].v, 1)
                  IN StartLoop(m1, c.body, [i \in DOMAIN A |-> Iter(p, A[i], TRUE, req, dfl)], "")

MacroLine(m, T, s) ==
  LET f == Top(m)
      c == Collect(f, f.pos, 0, <<>>)
      L == Locals(c.body, <<>>)
      m1 == [SetTop(m, [f EXCEPT !.pos = c.next]) EXCEPT
              !.lno = IF f.k = "file" THEN c.next - 1 ELSE @]
      n == T[1].t
  IN IF n \in DOMAIN m.sym THEN Err(m, 2143)       \* its body is then not taken for one
     ELSE IF ~c.ok THEN [Err(m1, 1163) EXCEPT !.done = TRUE]
     ELSE [m1 EXCEPT !.mac = (n :> [par |-> Params(T, 3), loc |-> L.loc, body |-> L.body,
                                    fun |-> IsFunBody(L.body, 1, 0), purged |-> FALSE]) @@ @]

GotoLine(m, lab) ==
  LET f == Top(m)
      J == {j \in DOMAIN f.body : LET T == Tokens(Subst(f.body[j], f.env))
                                  IN Len(T) > 1 /\ T[1].t = ":" /\ T[2].t = lab}
  IN IF J = {} THEN Err(DoExitm(m, ""), 2267)
     ELSE [SetTop(m, [f EXCEPT !.pos = CHOOSE j \in J : \A k \in J : j <= k])
           EXCEPT !.cs = SubSeq(@, 1, f.cd)]

------------------------------------------------------------------------
(* Processing one line text s; at: position from which it is still to be  *)
(* scanned for text macros and macro functions                            *)
Bracketed(T) == First(T) \in {"ifb","ifnb","ifidn","ifidni","ifdif","ifdifi",
                              "elseifb","elseifnb","elseifidn","elseifidni","elseifdif","elseifdifi","exitm"}
                \/ Second(T) \in StrDirs

\* is token j part of a %-expression?
Pct(T, j) == \E k \in 1..(j - 1) : T[k].t = "%" /\ \A h \in k..(j - 1) : T[h].t # ","

CondLine(m, d, s, T) ==
  LET rest == From(NoComment(s), T[1].e)
      top == m.cs[Len(m.cs)]
  IN IF d \in IfDirs THEN
        LET c == Cond(m, d, rest) IN
        IF ~c.ok THEN Err(Push(m, "dead"), 0) ELSE Push(m, IF c.v THEN "on" ELSE "seek")
     ELSE LET c == Cond(m, ElifOf[d], rest) IN
          IF ~c.ok THEN Err(SetCs(m, [top EXCEPT !.st = "done"]), 0)
          ELSE SetCs(m, [top EXCEPT !.st = IF c.v THEN "on" ELSE "seek"])

Line(m, s, at) ==
  LET T == Tokens(s)
      d == First(T)
      clear == [m EXCEPT !.pend = NoPend]
      inMac == Top(m).k # "file"
      noExp == d \in {"ifdef", "ifndef", "elseifdef", "elseifndef", "for", "forc", "irp", "irpc", "goto", "purge", "while"}
               \/ Second(T) \in {"macro", "equ"}
      isProc == d \in DOMAIN m.mac /\ ~m.mac[d].fun /\ Second(T) \notin {"macro", "equ", "="}
      x == IF noExp THEN [k |-> "none", j |-> 0, at |-> 0]
           ELSE NextExp(m, T, IF Second(T) \in StrDirs THEN T[2].e ELSE at, isProc)
  IN IF T = <<>> \/ d = ":" THEN clear
     ELSE IF x.k = "text"
     THEN LET t == T[x.j]
              v == TextExp(m, m.sym[t.t].v)
              br == Bracketed(T) /\ x.j > 1
              w == IF br /\ ~Pct(T, x.j) THEN "<" \o Bang(v) \o ">" ELSE v
          IN [m EXCEPT !.pend = [on |-> TRUE, l |-> Upto(s, t.p - 1) \o w \o From(s, t.e),
                                 at |-> IF Bracketed(T) THEN t.p + Len(w) ELSE t.p]]
     ELSE IF x.k = "fun"
     THEN LET c == CloseTok(T, x.j + 1, 0)
              br == Bracketed(T) /\ \A k \in 1..(x.j - 1) : T[k].t \notin {"("}
              pct == Pct(T, x.j)
              pre == Upto(s, T[x.j].p - 1) \o (IF br /\ ~pct THEN "<" ELSE "")
              post == (IF br /\ ~pct THEN ">" ELSE "") \o From(s, T[c].e)
          IN IF T[x.j].t \in BuiltIn
             THEN LET b == BuiltInFun(m, T[x.j].t, Args(m, SubSeq(s, T[x.j + 1].e, T[c].p - 1)))
                  IN IF b.code # 0 THEN Err(clear, b.code)
                     ELSE [m EXCEPT !.pend = [on |-> TRUE, l |-> pre \o b.v \o post,
                                              at |-> IF br /\ ~pct THEN Len(pre) + 1 ELSE x.at]]
             ELSE IF m.mac[T[x.j].t].purged
             THEN [m EXCEPT !.pend = [on |-> TRUE, l |-> pre \o post, at |-> Len(pre) + 1]]
             ELSE StartMacro(m, T[x.j].t, SubSeq(s, T[x.j + 1].e, T[c].p - 1), "fun", pre, post,
                             IF br /\ ~pct THEN Len(pre) + 1 ELSE x.at)
     ELSE IF d \in IfDirs \cup ElifDirs THEN CondLine(clear, d, s, T)
     ELSE IF d \in LoopDirs THEN LoopLine(clear, T, s)
     ELSE IF Second(T) = "macro" THEN MacroLine(clear, T, s)
     ELSE IF d = "endm" THEN Err(clear, 2163)
     ELSE IF d = "exitm" /\ inMac THEN
        DoExitm(clear, IF Len(T) > 1 THEN StrItem(m, From(s, T[1].e)) ELSE "")
     ELSE IF d = "goto" /\ inMac THEN GotoLine(clear, Second(T))
     ELSE IF Second(T) = "equ" THEN DoEqu(clear, T, s)
     ELSE IF isProc THEN
        IF m.mac[d].purged THEN clear
        ELSE StartMacro(clear, d, From(NoComment(s), T[1].e), "mac", "", "", 1)
     ELSE ExecLine(clear, s)

\* a fresh line: conditional directives act before anything is expanded
Fresh(m, s) ==
  LET T == Tokens(s)
      d == First(T)
      n == Len(m.cs)
      top == m.cs[n]
  IN IF d = "endif" THEN
        IF n = 0 THEN Err(m, 2080) ELSE [m EXCEPT !.cs = SubSeq(@, 1, n - 1)]
     ELSE IF d \in {"else"} \cup ElifDirs /\ n = 0 THEN Err(m, 2080)
     ELSE IF d = "else" THEN
        IF top.st = "dead" THEN m
        ELSE IF top.els THEN Err(m, 2276)
        ELSE SetCs(m, [st |-> IF top.st = "seek" THEN "on" ELSE "done", els |-> TRUE])
     ELSE IF d \in ElifDirs THEN
        IF top.st = "dead" THEN m
        ELSE IF top.els THEN Err(m, 2276)
        ELSE IF top.st = "done" THEN m
        ELSE IF top.st = "on" THEN SetCs(m, [top EXCEPT !.st = "done"])
        ELSE Line(SetCs(m, [top EXCEPT !.st = "on"]), s, 1)
     ELSE IF ~Active(m) THEN (IF d \in IfDirs THEN Push(m, "dead") ELSE m)
     ELSE Line(m, s, 1)

\* the second pass: names used before their definition
RECURSIVE Resolve(_, _)
Resolve(m, F) ==
  IF F = <<>> THEN m
  ELSE LET f == F[1]
           ok == f[2] \in DOMAIN m.sym /\ m.sym[f[2]].k \in {"const", "var"}
           b == IF ok THEN LE(m.sym[f[2]].v, f[3]) ELSE <<>>
       IN Resolve(IF ok THEN [m EXCEPT !.out = SubSeq(@, 1, f[1]) \o b \o SubSeq(@, f[1] + f[3] + 1, Len(@))]
                  ELSE [m EXCEPT !.err = Append(@, <<f[4], 2102, f[2]>>)], Tail(F))

Step(m0) ==
  LET m == [m0 EXCEPT !.steps = @ + 1]
      f == Top(m)
  IN IF m.pend.on THEN Line([m EXCEPT !.cur = m.pend.l], m.pend.l, m.pend.at)
     ELSE IF f.pos <= Len(f.body)
     THEN LET s == Subst(f.body[f.pos], f.env)
              m1 == SetTop(m, [f EXCEPT !.pos = @ + 1])
          IN Fresh([m1 EXCEPT !.cur = s, !.lno = IF f.k = "file" THEN f.pos ELSE @], s)
     ELSE IF f.k = "file" THEN
        [Resolve(IF m.cs # <<>> THEN Err([m EXCEPT !.lno = 0], 2080) ELSE m, m.fwd)
         EXCEPT !.done = TRUE]
     ELSE IF f.k = "fun" THEN EndFun(m, f, "")
     ELSE IF f.k = "loop" THEN NextIter(m)
     ELSE PopFrame(m)
=============================================================================
