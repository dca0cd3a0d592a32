------------------------------- MODULE Branch -------------------------------
(* Sizes and displacements of branches. A program is a sequence of items:   *)
(*   [k |-> "fill", n]      n bytes                                         *)
(*   [k |-> "lab", id]      a label                                         *)
(*   [k |-> "al", n]        padding to a multiple of n                      *)
(*   [k |-> "br", op, code, px, bnd, pin, t, add]  a branch to label t+add: *)
(*      op jmp jcc call xcx (LOOPx, JxCXZ: short only); code: condition or  *)
(*      opcode; px, bnd: number of 67h / F2h prefixes; pin "" short near    *)
(* env: [w |-> bytes of a near displacement, x |-> TRUE if there is no near *)
(*       conditional jump (before the 80386)]                               *)
(* A layout is the set of branches in near form; the assembler starts with  *)
(* the smallest layout and moves branches that do not reach to the near     *)
(* form.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Range   \* a short displacement is in -Range..Range-1: 128

IsBr(it) == it.k = "br"
Free(it) == IsBr(it) /\ it.op \in {"jmp", "jcc"} /\ it.pin = ""
Never(it) == IsBr(it) /\ (it.op = "xcx" \/ it.pin = "short")     \* near form not allowed
Always(it) == IsBr(it) /\ (it.op = "call" \/ it.pin = "near")    \* short form not allowed

ShortLen(it) == it.px + it.bnd + 2
NearLen(it, env) == it.px + it.bnd +
   CASE it.op \in {"jmp", "call"} -> 1 + env.w
     [] it.op = "jcc" -> IF env.x THEN 3 + env.w ELSE 2 + env.w
     [] OTHER -> 0
Pad(a, n) == IF a % n = 0 THEN 0 ELSE n - (a % n)
Len1(it, a, near, env) ==
   CASE it.k = "fill" -> it.n
     [] it.k = "lab" -> 0
     [] it.k = "al" -> Pad(a, it.n)
     [] OTHER -> IF near THEN NearLen(it, env) ELSE ShortLen(it)

\* addresses of the items under a layout; entry Len+1 is the end
RECURSIVE AddrFrom(_, _, _, _, _)
AddrFrom(P, env, S, k, acc) ==
   IF k > Len(P) THEN acc
   ELSE AddrFrom(P, env, S, k + 1, Append(acc, acc[k] + Len1(P[k], acc[k], k \in S, env)))
Addrs(P, env, S, base) == AddrFrom(P, env, S, 1, <<base>>)

LabelPos(P) == [id \in {P[k].id : k \in {j \in DOMAIN P : P[j].k = "lab"}} |->
                  CHOOSE k \in DOMAIN P : P[k].k = "lab" /\ P[k].id = id]
Dest(P, A, L, k) == A[L[P[k].t]] + P[k].add
InShort(d) == d >= -Range /\ d < Range
\* would the short form of item k reach, with all else as laid out?
Reach(P, A, L, k) == InShort(Dest(P, A, L, k) - A[k] - ShortLen(P[k]))

Must(P) == {k \in DOMAIN P : Always(P[k])}
TooFar(P, env, S, base) ==
   LET A == Addrs(P, env, S, base)
       L == LabelPos(P)
   IN {k \in DOMAIN P \ S : IsBr(P[k]) /\ ~Reach(P, A, L, k)}
Growing(P, env, S, base) == {k \in TooFar(P, env, S, base) : Free(P[k])}
RECURSIVE Grow(_, _, _, _)
Grow(P, env, S, base) == LET G == Growing(P, env, S, base)
                         IN IF G = {} THEN S ELSE Grow(P, env, S \cup G, base)
Least(P, env, base) == Grow(P, env, Must(P), base)
\* the branches that cannot be encoded
Unreachable(P, env, base) == {k \in TooFar(P, env, Least(P, env, base), base) : Never(P[k])}

RECURSIVE LE(_, _)
LE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, n - 1)
Rep(b, n) == [j \in 1..n |-> b]
Flip(c) == IF c % 2 = 0 THEN c + 1 ELSE c - 1
\* machine code of branch it at address a to address d
Encode(it, a, d, near, env) ==
   LET disp == d - a - (IF near THEN NearLen(it, env) ELSE ShortLen(it))
   IN Rep(103, it.px) \o Rep(242, it.bnd) \o
      IF ~near THEN <<CASE it.op = "jmp" -> 235 [] it.op = "jcc" -> 112 + it.code [] OTHER -> it.code>> \o LE(disp, 1)
      ELSE CASE it.op = "jmp" -> <<233>> \o LE(disp, env.w)
             [] it.op = "call" -> <<232>> \o LE(disp, env.w)
             [] OTHER -> IF env.x THEN <<112 + Flip(it.code), 1 + env.w, 233>> \o LE(disp, env.w)
                         ELSE <<15, 128 + it.code>> \o LE(disp, env.w)
Code(P, env, S, base) ==
   LET A == Addrs(P, env, S, base)
       L == LabelPos(P)
   IN [k \in {j \in DOMAIN P : IsBr(P[j])} |-> Encode(P[k], A[k], Dest(P, A, L, k), k \in S, env)]

\* ---- what an accepted program has to satisfy, whatever the strategy:
\* A: addresses of the items, C: code of the branches
NearOf(P, A) == {k \in DOMAIN P : IsBr(P[k]) /\ A[k + 1] - A[k] # ShortLen(P[k])}
Consistent(P, env, A) == A = Addrs(P, env, NearOf(P, A), A[1])
Reaches(P, env, A, C) == LET L == LabelPos(P) IN
   \A k \in DOMAIN P : IsBr(P[k]) =>
      /\ k \notin NearOf(P, A) => Reach(P, A, L, k) /\ ~Always(P[k])
      /\ k \in NearOf(P, A) => ~Never(P[k])
      /\ C[k] = Encode(P[k], A[k], Dest(P, A, L, k), k \in NearOf(P, A), env)
\* no free near branch could be short, given the layout as it is
Shortest(P, env, A) == LET L == LabelPos(P) IN
   \A k \in NearOf(P, A) : Free(P[k]) => ~Reach(P, A, L, k)
\* nor could one alone be short, with the rest moved accordingly
ShortestAlone(P, env, S, base) == LET L == LabelPos(P) IN
   \A k \in S : Free(P[k]) => ~Reach(P, Addrs(P, env, S \ {k}, base), L, k)
=============================================================================
